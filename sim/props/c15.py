"""C15: a generated data design holds exactly what its configuration asks for."""
import copy

from simkit import genconf, script

from . import c10, c12, common
from .common import ASSUME, STUB  # noqa: F401

ID = "C15"
BUDGET = {"quick": (4000, 60.0), "thorough": (100000, 2400.0)}
RULE = (
    "Histories of generations of generated data design configurations by one or several processes, into new and into used "
    "directories, with generated storage faults and kills; the impression and pricing generators record what they return, and "
    "after every generation the stored files are compared with the configuration and with these records."
)
REAL = ["src/data_generators/*: synthetic_data_design_generator, data_design, data_set, publisher_data, data_set_parameters, "
        "all impression, pricing and overlap generators", "src/filesystem_wrappers/filesystem_pathlib_wrapper.py", "pathlib, numpy"]  # fmt: skip


def conf(rng):
    c = c12.conf(rng)
    c["shared"] = rng.random() < 0.5
    tiny = rng.random() < 0.5
    for s in c["sets"]:
        s["pubs"] = rng.choice([1, 2, 3, 4, 5])
        if tiny:
            s["size"] = rng.choice([1, 2, 3, 5, 8, 13, 20])
            if s.get("overlap") and s["overlap"][0] == "Independent":
                # the largest publisher reaches everybody, or nearly
                s["overlap"][1]["universe_size"] = s["size"] + rng.choice([0, 1, 5]) if not c["draw"] else s["size"] + 20
        s["ratio"] = rng.choice([1, 0.9, 0.5, 0.3, 0.1])
        if s["size"] * s["ratio"] < s["pubs"]:
            s["ratio"] = 1  # a publisher without users cannot be generated
        if rng.random() < 0.1:
            s["name"] = rng.choice(["a", "b b", "x=1"]) + s["id"]
        if rng.random() < 0.9:
            s["pricing"] = s.get("pricing") or ["Fixed", {"cost_per_impression": rng.choice([0.1, 0.25])}]
            s["impression"] = s.get("impression") or ["Homogeneous", {"poisson_lambda": 1.5}]
    if len(c["sets"]) > 1 and rng.random() < 0.4:
        # told apart by one parameter alone
        a = c["sets"][0]
        b = copy.deepcopy(a)
        a["id"] = b["id"] = ""
        for s in (a, b):
            s.pop("name", None)
        k = rng.choice(["pubs", "size", "ratio", "cpi", "imp", "id", "over"])
        if k == "pubs":
            b["pubs"] += 1
            a["ratio"] = b["ratio"] = 1
        elif k == "size":
            b["size"] += 1
        elif k == "ratio":
            a["ratio"], b["ratio"] = rng.choice([(0.8, 0.81), (0.8, 0.8001), (1, 0.99), (0.9, 0.7)])
            a["size"] = b["size"] = max(b["size"], 10)
        elif k == "cpi":
            a["pricing"] = ["Fixed", {"cost_per_impression": 0.5}]
            b["pricing"] = ["Fixed", {"cost_per_impression": rng.choice([0.50001, 0.6, 5])}]
        elif k == "imp":
            a["impression"] = ["Homogeneous", {"poisson_lambda": 2.0}]
            b["impression"] = rng.choice([["Homogeneous", {"poisson_lambda": 2.001}], ["Heterogeneous", {"gamma_shape": 1.0}]])
        elif k == "over":
            a["overlap"] = ["Sequential", {"order": "original", "correlated_sets": "one", "shared_prop": 0.25}]
            b["overlap"] = copy.deepcopy(a["overlap"])
            b["overlap"][1].update(rng.choice([{"shared_prop": 0.2501}, {"order": "random"}, {"correlated_sets": "all"}]))
        else:
            b["id"] = "2"
        if c["draw"] and k == "size":
            c["draw"] = False
        c["sets"][1] = b
    for s in c["sets"]:
        if s.get("overlap") and s["overlap"][0] == "Independent":
            u = s["overlap"][1]
            u["universe_size"] = max(u["universe_size"], s["size"] + (20 if c["draw"] else 0))
    return c


def gen(rng, i):
    sc = {"seed": rng.randrange(1 << 30), "datasets": {}, "cloud": False, "runs": [], "configs": {}}
    if rng.random() < 0.3:
        sc["chunk"] = rng.choice([16, 64, 200])
    if rng.random() < 0.5:
        sc["ls_salt"] = rng.randrange(1000)
    for k in range(rng.choice([1, 1, 2])):
        sc["configs"]["c%d" % k] = conf(rng)
    cs = sorted(sc["configs"])
    dirs = 0
    faulty = rng.random() < 0.5
    for ph in range(rng.choice([1, 2, 2, 3])):
        used = set()
        clients = []
        for k in range(rng.choice([1, 1, 2])):
            ops = []
            for _ in range(rng.choice([1, 1, 2])):
                free = [d for d in range(dirs) if d not in used]
                if free and rng.random() < 0.6:
                    d = rng.choice(free)
                else:
                    d, dirs = dirs, dirs + 1
                used.add(d)
                ops.append(["gen", "data%d" % d, rng.choice(cs), rng.choice([0, 1, 1, 2, 77]), "call"])
            clients.append({"proc": "p%d_%d" % (ph, k) if rng.random() < 0.7 else "p", "ops": ops, "salt": rng.randrange(1, 50)})
        run = {"clients": clients, "preempt": rng.choice([0.0, 0.2, 0.5])}
        if len(clients) == 1:
            for o in ops:
                if rng.random() < 0.4:
                    o[4] = "main"
        elif rng.random() < 0.2:
            run["line"] = rng.choice([20, 100])
        if faulty and rng.random() < 0.8:
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                f = common.io_fault(rng, False)
                f["cls"] = "data"
                f.pop("u", None)
                f["nth"] = rng.choice([1, 1, 2, 3, 5, 8, 13, 21])
                if f["action"] == "eacces":
                    f["action"] = "eio"
                fs.append(f)
            if rng.random() < 0.5:
                fs[-1] = {"op": rng.choice(["*", "write", "close", "open_w", "mkdir"]), "cls": "data",
                          "action": rng.choice(["kill", "kill_all"]), "nth": rng.randint(1, 25)}  # fmt: skip
            run["faults"] = fs
        sc["runs"].append(run)
    return sc


class Done:
    """One generation: what was recorded, and the directory before and after it."""

    def __init__(self, op, before):
        self.op, self.before, self.after = op, before, None
        self.rec = genconf.Record()


def sets_of(w, rel):
    """{data set: {publisher: bytes}}; directories without files count as data sets."""
    out = {}
    root = w.root + "/" + rel
    for p in w.sim.vfs.dirs(root):
        if p != root:
            n = p[len(root) + 1 :]
            out.setdefault(n.split("/")[0], {})
    for p, b in w.files(rel).items():
        parts = p.split("/", 2)
        if len(parts) == 3:
            out.setdefault(parts[1], {})[parts[2]] = b
        else:
            out.setdefault("", {})[parts[-1]] = b
    return out


def handler(w, proc, op):
    sim = w.sim
    m = genconf.generator_module()
    g = Done(op, sets_of(w, op[1]))
    w.gens.append(g)
    sim.cur.conf = op[2]
    sim.cur.gen = g.rec
    dst = "/simfs/w/" + op[1]
    w.of[id(op)] = g
    if op[4] == "main":
        genconf.run_main(m, ["--output_dir=" + dst, "--data_design_config=" + genconf.CONFIG_FILE, "--random_seed=%d" % op[3], "--noverbose"])
        names = None
    else:
        names = list(m.SyntheticDataDesignGenerator(dst, genconf.CONFIG_FILE, op[3], False)().names)
    g.after = sets_of(w, op[1])
    return names


def parse(b):
    out = []
    for line in b.decode().splitlines():
        x, s = line.split(",")
        out.append((int(x), float(s)))
    return sorted(out, key=lambda v: v[1])


def renamed(a, b):
    """Is log b log a with its users renamed one to one?"""
    if len(a) != len(b):
        return False
    to, back = {}, {}
    for (x, s), (y, t) in zip(a, b):
        if s != t or to.setdefault(x, y) != y or back.setdefault(y, x) != x:
            return False
    return True


def wrong(c, g, i, stored):
    """None, or what is wrong with data set i of a generation."""
    s = c["sets"][i]
    if sorted(stored) != sorted(str(k + 1) for k in range(s["pubs"])):
        return "publishers %s, %d were asked for" % (sorted(stored), s["pubs"])
    try:
        logs = [parse(stored[str(k + 1)]) for k in range(s["pubs"])]
    except ValueError as e:
        return "unreadable: %s" % e
    size = g.rec.sizes[i]
    for k, log in enumerate(logs):
        n = len({x for x, _ in log})
        want = size * (s["ratio"] ** (k / (s["pubs"] - 1)) if s["pubs"] > 1 else 1)
        if not want - k - 1e-6 <= n <= want + 1e-6:
            return "publisher %d reaches %d users; the largest has %d, the ratio is %s" % (k + 1, n, size, s["ratio"])
    kind, par = s.get("overlap") or ["FullOverlap", {}]
    if s.get("impression") and s.get("pricing"):
        left = [(ids, pr) for j, ids, pr in g.rec.prices if j == i]
        made = [(n, ids) for j, n, ids in g.rec.impressions if j == i]
        for k, log in enumerate(logs):
            for ids, pr in left:
                src = sorted(pr, key=lambda v: v[1])
                if [x for x, _ in pr] == ids and (src == log if kind == "FullOverlap" else renamed(src, log)):
                    break
            else:
                return "the impressions of publisher %d are not those that were generated for it" % (k + 1)
            left.remove((ids, pr))
            n = [m for m in made if m[1] == ids]
            if not n:
                return "publisher %d: other impressions were priced than generated" % (k + 1)
            made.remove(n[0])
        cpi = s["pricing"][1]["cost_per_impression"]
        for k, log in enumerate(logs):
            for j, (_, p) in enumerate(log):
                if abs(p - (j + 1) * cpi) > 1e-9 * (j + 1):
                    return "publisher %d: impression %d is bought for %s at %s each" % (k + 1, j + 1, p, cpi)
    ids = [{x for x, _ in log} for log in logs]
    if kind == "Independent":
        u = par["universe_size"]
        if any(x < 0 or x >= u for y in ids for x in y):
            return "users outside of a universe of %d" % u
    if kind == "Sequential" and par["order"] != "random":
        order = ids if par["order"] == "original" else ids[::-1]
        for k in range(1, len(order)):
            src = order[k - 1] if par["correlated_sets"] == "one" else set().union(*order[:k])
            want = min(len(order[k]) * par["shared_prop"], len(src))
            if not want - 1 <= len(order[k] & src) <= want + 1:
                return "%d of %d users are shared with the earlier publishers, not %s of them" % (
                    len(order[k] & src), len(order[k]), par["shared_prop"])  # fmt: skip
    return None


def judge(sc, out):
    w = script.ScriptWorld(sc, handler, max_steps=600000)
    w.gens, w.of = [], {}
    w.run()
    out.worlds.append(w)
    for r in w.runs:
        if r.status in ("limit", "hang"):
            return out.fail("status", "phase %d: %s" % (r.index, r.status))
    complete = {}  # (directory, data set) -> files, once stored completely
    for h in w.hist:
        g = w.of.get(id(h.op))
        if g is None or g.op is not h.op:
            continue  # killed before it began
        c = sc["configs"][h.op[2]]
        for (d, n), files in complete.items():
            if d == h.op[1] and g.before.get(n) != files:
                return out.fail("changed", "%s/%s was stored completely and is not any more" % (d, n))
        names = g.rec.names
        if h.exc is not None or h.end is None:
            if h.exc is not None and not h.faults and names is not None and not set(names) & set(g.before):
                if len(set(names)) < len(names) and len({repr(s) for s in c["sets"]}) == len(names):
                    return out.fail("names", "different data sets of one configuration have one name: %s" % names)
                return out.fail("raised", "%s raises %s: %s" % (h.op, type(h.exc).__name__, str(h.exc)[:300]))
            if h.exc is not None and not h.faults and names is None:
                return out.fail("raised", "%s raises %s: %s" % (h.op, type(h.exc).__name__, str(h.exc)[:300]))
            out.note("generations_failed" if h.exc is not None else "generations_killed")
        else:
            if set(names) & set(g.before):
                return out.fail("twice", "%s succeeds although there already is %s" % (h.op, sorted(set(names) & set(g.before))[0]))
            if h.result is not None and sorted(h.result) != sorted(set(names) | set(g.before) - {""}):
                return out.fail("listed", "%s: listed as %s" % (h.op, h.result))
            for i, n in enumerate(names):
                if n not in g.after:
                    return out.fail("missing", "%s succeeds without %s" % (h.op, n))
                bad = wrong(c, g, i, g.after[n])
                if bad:
                    return out.fail("data", "%s, %s: %s" % (h.op, n, bad))
                out.note("data_sets_compared")
                if c["sets"][i].get("overlap") and c["sets"][i]["overlap"][0] != "FullOverlap" and c["sets"][i]["pubs"] > 1:
                    out.note("overlaps_compared")
            extra = set(g.after) - set(names) - set(g.before)
            if extra:
                return out.fail("extra", "%s also leaves %s" % (h.op, sorted(extra)))
            for n in names:
                complete[h.op[1], n] = g.after[n]
            out.note("generations_compared")
    for (d, n), files in complete.items():
        if sets_of(w, d).get(n) != files:
            return out.fail("changed", "%s/%s was stored completely and is not any more" % (d, n))


def shape(sc):
    return "%d phases:%s" % (len(sc["runs"]), "faults" if any(r.get("faults") for r in sc["runs"]) else "quiet")


def shrink(sc):
    yield from c10.shrink(sc)
    yield from c12.shrink_confs(sc)
