"""C09: a data set added to a data design is read back unchanged, always."""
import collections
import copy

from simkit import script

from . import common

ID = "C09"
BUDGET = {"quick": (5000, 60.0), "thorough": (200000, 2400.0)}
RULE = (
    "A generated history of data design operations (open, add, add again, add without a name, list, look up early and late, copy "
    "into another design) by 1-3 processes or threads over one or two directories, on local and cloud storage, interleaved by the "
    "scheduler, with generated storage faults, kills and restarts; every listing and every data set read back is compared with a "
    "dictionary of what was added, and so are the stored files at the end."
)
REAL = ["src/data_generators/data_design.py", "src/data_generators/data_set.py", "src/data_generators/publisher_data.py",
        "src/filesystem_wrappers/*", "cloudpathlib", "pathlib"]  # fmt: skip
STUB = [
    "file system and clock (simulated, in memory)",
    "google.cloud.storage.Client (simulated object store: strongly consistent, atomic uploads)",
]
ASSUME = [
    "the object store is strongly consistent and replaces objects atomically",
    "no two processes add data sets of one name to one directory at the same time",
    "the universe size is not part of what is stored: it is derived from the data when they are read",
]
PARTIAL = "a lookup while the data set is being added returns some of its publishers, and later lookups of that process repeat it"

NAMES = ["ds1", "ds10", "ds", "a b", "x=1,y=(2)", "000000000042", "NA", "caf\u00e9", ".hid", "ds1.csv", "Ds1", "data"]
PUBS = ["1", "2", "10", "pub 1", "p.csv", "p", ".p", "P", "000000000007", "caf\u00e9", "a=b,c", "data"]
SPENDS = [
    0.0, 0.01, 0.1, 0.1 + 0.2, 1.0, 1e-7, 1e22, 1.0 / 3, 2.0, 2.5, 123456789.123456, 5e-324, 1.7976931348623157e308, 3, 7, 0.07,
    100.10000000000001, 1e16, 99999999999999999,
]  # fmt: skip


def log(rng):
    n = rng.choice([1, 1, 2, 3, 5, 8, 13, 40])
    ids = rng.choice([3, 10, 1000, 1 << 62])
    kind = rng.random()
    out = []
    for k in range(n):
        if kind < 0.4:
            s = rng.choice(SPENDS)
        elif kind < 0.8:
            s = rng.random() * rng.choice([1, 1000])
        else:
            s = (k + 1) * 0.1
        out.append([rng.randrange(ids), s])
    if rng.random() < 0.5:
        rng.shuffle(out)
    return out


def dataset(rng):
    n = rng.choice([1, 1, 2, 2, 3, 5])
    pubs = rng.sample(PUBS, n)
    return [[p if rng.random() < 0.92 else None, log(rng)] for p in pubs]


def gen(rng, i):
    if i == 0:
        return {
            "seed": 2, "datasets": {}, "cloud": False, "kind": "partial",
            "runs": [
                {"clients": [{"proc": "p0", "ops": [["open", "h", 0, 0], ["add", "h", "ds", [["1", [[1, 1.0]]], ["2", [[2, 2.0]]]], 0]]},
                             {"proc": "p1", "ops": [["open", "h", 0, 0]] + [["get", "h", "ds"]] * 12}], "preempt": 0.6},
                {"clients": [{"proc": "p1", "ops": [["get", "h", "ds"]]}]},
            ],
        }  # fmt: skip
    sc = {"seed": rng.randrange(1 << 30), "datasets": {}, "cloud": rng.random() < 0.5, "runs": []}
    if rng.random() < 0.3:
        sc["chunk"] = rng.choice([300, 1000] if sc["cloud"] else [7, 64])
    if rng.random() < 0.5:
        sc["ls_salt"] = rng.randrange(1000)
    if sc["cloud"] and rng.random() < 0.2:
        sc["skew"] = rng.choice([-3600.0, 3600.0, 0.5, -0.5])
    ndirs = rng.choice([1, 1, 2])
    many = rng.random() < 0.02 and not sc["cloud"]
    names = rng.sample(NAMES, rng.choice([1, 2, 3, 4]))
    if many:
        names = ["n%d" % k for k in range(140)]
    clients = ["p%d" % k for k in range(rng.choice([1, 1, 2, 2, 3]))]
    faulty = rng.random() < 0.45
    owner = {}
    for k in range(rng.choice([1, 2, 3, 4])):
        ph = {"clients": [], "preempt": rng.choice([0.0, 0.1, 0.4])}
        # who may add what in this phase
        owner = {(d, n): rng.choice(clients) for d in range(ndirs) for n in names}
        for c in rng.sample(clients, rng.randint(1, len(clients))):
            n = 1 if rng.random() < 0.85 or many else 2
            for t in range(n):
                mine = [x for j, x in enumerate(sorted(owner)) if owner[x] == c and j % n == t]
                ph["clients"].append({"proc": c, "ops": script_ops(rng, c, t, ndirs, names, mine, many and k == 0), "salt": rng.randrange(4)})
        if len(ph["clients"]) > 1 and rng.random() < 0.25:
            ph["line"] = rng.choice([5, 20])
        if faulty and rng.random() < 0.7:
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                f = common.io_fault(rng, sc["cloud"])
                if f.get("cls") != "cache":
                    f["cls"] = "data"
                f.pop("u", None)
                f["nth"] = rng.choice([1, 1, 2, 3, 5, 8, 13, 21])
                if f["action"] == "eacces":
                    f["action"] = "eio"  # pathlib leaves out what it may not list
                fs.append(f)
            if rng.random() < 0.3:
                fs.append({"op": "*", "action": rng.choice(["kill", "kill_all"]), "nth": rng.randint(1, 80)})
            ph["faults"] = fs
        if rng.random() < 0.3:
            ph["end"] = rng.sample(clients, 1)
        if rng.random() < 0.15:
            ph["gap"] = rng.choice([0.0, 86400.0 * 40])
        sc["runs"].append(ph)
    for c in clients + ["new"]:
        fin = []
        for d in range(ndirs):
            fin.append(["open", "z%d" % d, d, 0])
            fin += [["names", "z%d" % d], ["all", "z%d" % d]]
        sc["runs"].append({"clients": [{"proc": c, "ops": fin}]})
    return sc


def script_ops(rng, c, t, ndirs, names, mine, many):
    ops = []
    hs = []

    def new():
        h = "%s%d_%d" % (c, t, len(hs))
        d = rng.randrange(ndirs)
        hs.append((h, d))
        ops.append(["open", h, d, rng.choice([0, 0, 0, 1, 2])])

    new()
    if many:
        for d, n in mine:
            if d == hs[0][1]:
                ops.append(["add", hs[0][0], n, [["1", [[len(ops), 1.5]]]], 0])
        ops.append(["all", hs[0][0]])
        return ops + [["all", hs[0][0]]]
    for _ in range(rng.randint(1, 9)):
        h, d = rng.choice(hs)
        r = rng.random()
        m = [n for dd, n in mine if dd == d]
        if r < 0.12:
            new()
        elif r < 0.45 and m:
            ops.append(["add", h, rng.choice(m), dataset(rng), rng.randrange(4)])
        elif r < 0.50:
            ops.append(["add", h, None, dataset(rng), rng.randrange(4)])
        elif r < 0.53 and m:
            ds = dataset(rng)
            ds.append([ds[0][0] or "1", log(rng)])
            if not ds[0][0]:
                ds[0][0] = "1"
            ops.append(["add", h, rng.choice(m), ds, 0])
        elif r < 0.60:
            ops.append([rng.choice(["names", "count"]), h])
        elif r < 0.92:
            ops.append(["get", h, rng.choice(names)])
        elif len(hs) > 1:
            h2, d2 = rng.choice(hs)
            m2 = [n for dd, n in mine if dd == d2]
            if m2:
                ops.append(["copy", h, rng.choice(m2), h2])
        else:
            ops.append(["all", h])
    return ops


# -- what a client does --------------------------------------------------------
def handler(w, proc, op):
    from wfa_planning_evaluation_framework.data_generators.data_design import DataDesign
    from wfa_planning_evaluation_framework.data_generators.data_set import DataSet
    from wfa_planning_evaluation_framework.data_generators.publisher_data import PublisherData

    kw = {}
    if w.cloud:
        from wfa_planning_evaluation_framework.filesystem_wrappers import filesystem_cloudpath_wrapper as m

        fs = proc.objs.get("fs")
        if fs is None:
            fs = m.FilesystemCloudpathWrapper()
            fs.set_default_client_to_gs_client()
            proc.objs["fs"] = fs
        kw["filesystem"] = fs
    k, h = op[0], op[1]
    if k == "open":
        path = w.base + "/data%d" % op[2]
        if op[3] == 1:
            path += "/"
        elif op[3] == 2 and not w.cloud:
            path = "w/data%d" % op[2]  # relative: clients work in /simfs
        proc.objs[h] = DataDesign(path, **kw)
        return None
    design = proc.objs.get(h)
    if design is None:
        return "closed"
    if k == "names":
        return list(design.names)
    if k == "count":
        return design.count
    if k == "get":
        return look(design.by_name(op[2]))
    if k == "all":
        out = {}
        for n in design.names:
            try:
                out[n] = look(design.by_name(n))
            except Exception as e:
                out[n] = e
        return out
    if k == "copy":
        to = proc.objs.get(op[3])
        if to is None:
            return "closed"
        ds = design.by_name(op[2])
        was = look(ds)
        w.adding[id(proc)] = was
        to.add(ds)
        return was
    if k == "add":
        import numpy as np

        logs = []
        for j, (pn, l) in enumerate(op[3]):
            if op[4] == 1:
                l = [(np.int64(a), np.float64(s)) for a, s in l]
            else:
                l = [(a, s) for a, s in l]
            logs.append(l)
        pubs = [PublisherData(l, pn) if pn else PublisherData(l) for l, (pn, _) in zip(logs, op[3])]
        pnames = [p.name for p in pubs]
        ds = DataSet(pubs, op[2]) if op[2] else DataSet(pubs)
        if op[4] == 2:  # the caller goes on using what it passed
            for l in logs:
                l.append((987654321, 1.0))
                l.reverse()
            pubs[0].name = "renamed"
            pubs.pop()
        design.add(ds)
        if op[4] == 3:
            for l in logs:
                del l[:]
            pubs[0].name = "renamed"
            del pubs[:]
        return [ds.name, pnames]
    raise ValueError(k)


def look(ds):
    """What can be seen of a data set."""
    out = {"name": ds.name, "count": ds.publisher_count, "max": ds.maximum_reach}
    pubs = getattr(ds, "_data", None)
    n = ds.publisher_count
    big = [1 << 40] * n
    if pubs is not None and all(hasattr(p, "_data") for p in pubs):
        out["pubs"] = [[p.name, [(int(a), float(s)) for a, s in p._data]] for p in pubs]
    out["total_spend"] = sorted(float(x) for x in ds.spend_by_impressions(big))
    rp = ds.reach_by_impressions(big)
    out["reach"] = [int(rp.reach(k)) for k in (1, 2, 3)]
    half = [1] * n
    out["first"] = sorted(float(x) for x in ds.spend_by_impressions(half))
    return out


# -- model ---------------------------------------------------------------------
def want_of(name, pubs):
    """What look() shows of a data set with these publishers, but for their order."""
    logs = [(pn, sorted(([int(a), float(s)] for a, s in l), key=lambda x: x[1])) for pn, l in pubs]
    freq = collections.Counter(a for _, l in logs for a, _ in l)
    return {
        "name": name,
        "count": len(logs),
        "max": len(freq),
        "pubs": {pn: [(a, s) for a, s in l] for pn, l in logs},
        "total_spend": sorted(l[-1][1] for _, l in logs),
        "reach": [sum(1 for v in freq.values() if v >= k) for k in (1, 2, 3)],
        "first": sorted(l[0][1] for _, l in logs),
    }


def differs(want, got):
    for k in ("name", "count", "max"):
        if want[k] != got[k]:
            return "its %s is %r instead of %r" % ({"max": "maximum reach", "count": "number of publishers"}.get(k, k), got[k], want[k])
    if "pubs" in got:
        g = {}
        for pn, l in got["pubs"]:
            g[pn] = l
        if sorted(g) != sorted(want["pubs"]) or len(got["pubs"]) != len(g):
            return "its publishers are %s instead of %s" % (sorted(p for p, _ in got["pubs"]), sorted(want["pubs"]))
        for pn in g:
            if g[pn] != want["pubs"][pn]:
                bad = [(a, b) for a, b in zip(g[pn], want["pubs"][pn]) if a != b]
                return "publisher %r has %d impressions (%s) instead of %d (%s)" % (
                    pn, len(g[pn]), bad[0][0] if bad else "", len(want["pubs"][pn]), bad[0][1] if bad else "")  # fmt: skip
    for k in ("total_spend", "reach", "first"):
        if want[k] != got[k]:
            return "%s is %r instead of %r" % (k, got[k], want[k])
    return None


class Add:
    def __init__(self, h, d, name, want):
        self.h, self.d, self.name, self.want = h, d, name, want


def handles(hist):
    """(process, handle) -> [(rec of the open)]."""
    out = {}
    for h in hist:
        if h.op[0] == "open":
            out.setdefault((h.proc.id, h.op[1]), []).append(h)
    return out


def judge(sc, out):
    w = script.ScriptWorld(sc, handler, max_steps=600000)
    w.adding = {}
    w.run()
    out.worlds.append(w)
    for r in w.runs:
        if r.status == "limit":
            return out.fail("steps", "operations do not end within %d steps" % w.sim.max_steps)
        if r.status == "hang":
            return out.fail("hang", "the clients wait for each other in phase %d" % r.index)
    hs = handles(w.hist)

    def opened(h, name):
        """The last successful open of the handle before operation h."""
        r = None
        for o in hs.get((h.proc.id, name), []):
            if o.end is not None and o.end < h.begin:
                r = o if o.exc is None else r
        return r

    adds = []
    for h in w.hist:
        if h.result == "closed":
            continue
        if h.op[0] == "add":
            o = opened(h, h.op[1])
            if o is None:
                continue
            if h.op[2] is None and not h.ok:
                adds.append(Add(h, o.op[2], None, None))
                continue
            name = h.result[0] if h.ok else h.op[2]
            want = want_of(name, [(pn, l) for pn, (_, l) in zip(h.result[1], h.op[3])]) if h.ok else None
            adds.append(Add(h, o.op[2], name, want))
        elif h.op[0] == "copy":
            o = opened(h, h.op[3])
            if o is None:
                continue
            want = None
            if h.ok:
                g = h.result
                want = want_of(g["name"], g["pubs"]) if "pubs" in g else g
            adds.append(Add(h, o.op[2], h.op[2], want))

    def state(d, name, h):
        """("none" | "one" | "unknown", Add) of a name as operation h finds it."""
        mine = [a for a in adds if a.d == d and a.name == name and a.h is not h and a.h.begin < h.last]
        if any(a.h.last > h.begin for a in mine):
            return "busy", None
        good = [a for a in mine if a.h.ok]
        if len(good) > 1:
            return "twice", good[-1]
        if good:
            return "one", good[0]
        # refused before anything was stored: two publishers with one name, a copy of what is not there
        if not mine and any(a.d == d and a.name is None and a.h.begin < h.last for a in adds) and name.isdigit():
            return "unknown", None  # the random name of one that was not completed
        if all(harmless(a) for a in mine):
            return "none", None
        return "unknown", None

    def harmless(a):
        if a.h.end is None or a.h.faults:
            return False
        return a.h.op[0] == "add" and same_pubs(a.h.op[3])

    tainted = set()
    # cloudpathlib refuses, loudly, to use a copy it could not complete
    out.cut = {h.proc.id for h in w.hist if h.faults and w.cloud}
    special = sc.get("kind") == "partial"
    for h in w.hist:
        if h.result == "closed":
            continue
        if h.end is None:
            out.note("killed_operations")
        if h.faults:
            out.note("operations_with_faults")
        k = h.op[0]
        if h.end is None:
            continue  # the process is gone, and with it what it remembered
        out.note("operations")
        bad = None
        if k == "open":
            if h.exc is not None and not h.faults:
                bad = "raises %r" % h.exc
        elif k in ("names", "count", "all"):
            o = opened(h, h.op[1])
            d = o.op[2]
            if h.exc is not None:
                bad = "raises %r" % h.exc
            else:
                got = h.result
                must, may = set(), set()
                for a in adds:
                    if a.d != d or a.name is None:
                        continue
                    if a.h.begin < h.last:
                        may.add(a.name)
                    hop = a.h.op[1] if a.h.op[0] == "add" else a.h.op[3]
                    via = a.h.proc is h.proc and hop == h.op[1] and a.h.last < h.begin and opened(a.h, hop) is o
                    if a.h.ok and (via or a.h.last < o.begin):
                        must.add(a.name)
                anon = any(a.d == d and a.name is None and a.h.begin < h.last for a in adds)
                if k == "count":
                    if got < len(must) or not anon and got > len(may):
                        bad = "says %r; %s were added" % (got, sorted(must))
                else:
                    if len(set(got)) != len(got):
                        bad = "lists a name twice: %s" % got
                    elif must - set(got):
                        bad = "does not list %s" % sorted(must - set(got))
                    elif not anon and set(got) - may:
                        bad = "lists %s" % sorted(set(got) - may)
                if not bad and k == "all":
                    for n in sorted(got):
                        bad = bad or got_check(h, d, n, got[n], state, tainted, out, special)
        elif k == "get":
            o = opened(h, h.op[1])
            bad = got_check(h, o.op[2], h.op[2], h.exc if h.exc is not None else h.result, state, tainted, out, special)
        elif k == "copy":
            o, o2 = opened(h, h.op[1]), opened(h, h.op[3])
            st, _ = state(o2.op[2], h.op[2], h)
            src, _ = state(o.op[2], h.op[2], h)
            if src == "busy":
                tainted.add((h.proc.id, o.op[2], h.op[2]))
            if h.ok:
                bad = got_check(h, o.op[2], h.op[2], h.result, state, tainted, out, special)
                if st == "one" and not bad:
                    bad = "a name that exists is not refused"
            elif not h.faults and src == "one" and st == "none" and h.proc.id not in out.cut and (h.proc.id, o.op[2], h.op[2]) not in tainted:
                bad = "raises %r" % h.exc
        elif k == "add":
            o = opened(h, h.op[1])
            if h.op[2] is None:
                if not h.ok and not h.faults and not same_pubs(h.op[3]):
                    bad = "raises %r" % h.exc
            else:
                st, a = state(o.op[2], h.op[2], h)
                if h.ok and st == "one":
                    bad = "a name that exists is not refused"
                elif h.ok and same_pubs(h.op[3]):
                    bad = "publishers with one name are not refused"
                elif not h.ok and not h.faults and st == "none" and not same_pubs(h.op[3]):
                    bad = "raises %s: %s" % (type(h.exc).__name__, str(h.exc)[:200])
        if bad:
            if sc.get("kind") == "partial" and k == "get" and "instead of" in bad:
                out.known.append(PARTIAL)
                return
            return out.fail(k, "%s storage, operation %s by %s in phase %d: %s" % ("cloud" if w.cloud else "local", str(h.op)[:300], h.client, h.phase, bad))
    if sc.get("kind") == "partial":
        return
    # what is stored
    class End:
        op, proc, begin, last, end = ["end"], None, w.tick(), w.tick(), w.seq

    for d, name in sorted({(a.d, a.name) for a in adds if a.name is not None}):
        st, a = state(d, name, End)
        if st != "one" or "pubs" not in a.want:
            continue
        pre = "data%d/%s/" % (d, name)
        got = {k[len(pre):]: v for k, v in w.files("data%d" % d).items() if k.startswith(pre)}
        try:
            pubs = {}
            for pn, data in got.items():
                pubs[pn] = [(int(l.split(",")[0]), float(l.split(",")[1])) for l in data.decode().splitlines()]
        except (ValueError, IndexError):
            continue  # stored in another form; the lookups decide
        if pubs != a.want["pubs"]:
            return out.fail("stored", "the files of %s in data%d are not what was added" % (name, d))
        out.note("stored_data_sets_compared")


def same_pubs(pubs):
    names = [p for p, _ in pubs if p]
    return len(set(names)) != len(names)


def got_check(h, d, name, got, state, tainted, out, special):
    key = (h.proc.id, d, name)
    st, a = state(d, name, h)
    if st == "busy":
        tainted.add(key)
        out.note("lookups_during_an_add")
        return None
    if key in tainted:
        if isinstance(got, Exception) or a is None or "pubs" not in a.want:
            return None
        out.note("lookups_after_one_during_an_add")
        if special and h.phase == 1:
            return differs(a.want, got)
        return None
    if st == "unknown":
        return None
    if st == "twice":
        return "the name was added twice"
    if isinstance(got, Exception):
        if type(got).__name__ == "OverwriteNewerLocalError" and h.proc.id in out.cut:
            out.note("clients_with_a_broken_copy")
            return None
        if st == "one" and not h.faults:
            return "%r: raises %s: %s" % (name, type(got).__name__, str(got)[:200])
        return None
    if st == "none":
        return "%r was never added, yet has %d publishers" % (name, got["count"]) if got["count"] else None
    out.note("lookups_compared")
    bad = differs(a.want, got)
    return "%r: %s" % (name, bad) if bad else None


def shape(sc):
    return ("cloud" if sc["cloud"] else "local") + ":%d phases" % len(sc["runs"])


def shrink(sc):
    from . import c10

    yield from c10.shrink(sc)
    for i, ph in enumerate(sc["runs"]):
        for j, c in enumerate(ph["clients"]):
            for x, o in enumerate(c["ops"]):
                if o[0] == "add" and len(o[3]) > 1:
                    for y in range(len(o[3])):
                        s = copy.deepcopy(sc)
                        s.pop("schedule", None)
                        del s["runs"][i]["clients"][j]["ops"][x][3][y]
                        yield s
                if o[0] == "add":
                    for y in range(len(o[3])):
                        if len(o[3][y][1]) > 1:
                            s = copy.deepcopy(sc)
                            s.pop("schedule", None)
                            z = s["runs"][i]["clients"][j]["ops"][x][3][y]
                            z[1] = z[1][: len(z[1]) // 2]
                            yield s
