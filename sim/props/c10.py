"""C10: local and cloud storage behave alike to the rest of the system."""
import copy
import fnmatch
import posixpath

from simkit import script, world

from . import common

ID = "C10"
BUDGET = {"quick": (6000, 60.0), "thorough": (200000, 2400.0)}
RULE = (
    "A generated history of operations (write and read with several encodings and line ends, exists, is_file, is_dir, mkdir, listing, removal, path arithmetic, new client) "
    "on a few paths by 1-3 client processes or threads through one of the two file system wrappers, interleaved by the scheduler, "
    "with generated faults, kills and new processes; every observation is compared with the set of states a dictionary model allows "
    "given which operations had completed, were in progress or had failed."
)
REAL = ["src/filesystem_wrappers/*", "cloudpathlib", "pathlib"]
STUB = [
    "file system and clock (simulated, in memory)",
    "google.cloud.storage.Client (simulated object store: strongly consistent, atomic uploads)",
]
ASSUME = [
    "the object store is strongly consistent and replaces objects atomically",
    "in the object store no process removes a path while another one uses it (cloudpathlib looks first and acts then)",
    "the threads of one process do not use one path at the same time",
    "no two entries are told apart by anything but their path; a path is never both a file and a directory",
]

DIRS = ["d", "d/e", "d/e/f", "g", "h=1,(x)", "with space"]
FILES = ["a", "b.csv", "c.txt", "x=1,y(2).csv", "n 1", "#h", "z.CSV", "0"]
TEXTS = [
    "", "x", "hello\n", "a,b\n1,2\n", "caf\u00e9 \u4e2d\n", "long " * 400, "no newline at end", "\n\n", "1\n2\n3\n" * 60,
    "crlf\r\nline\r\n", "tab\t'\"\\", "NUL?", "  lead", "trail  ",
]  # fmt: skip

ENC = [None, None, None, None, None, "utf-8", "latin-1", "utf-16-le"]


def gen(rng, i):
    if i == 0:
        return {"seed": 1, "datasets": {}, "cloud": True, "kind": "pattern", "runs": [
            {"clients": [{"proc": "p0", "ops": [["write", "d/a.csv", "x", None], ["glob", "d", "a*"]]}]}]}
    sc = {
        "seed": rng.randrange(1 << 30),
        "datasets": {},
        "cloud": rng.random() < 0.6,
        "runs": [],
    }
    if rng.random() < 0.25:
        sc["chunk"] = rng.choice([300, 1000] if sc["cloud"] else [7, 64])
    if rng.random() < 0.4:
        sc["ls_salt"] = rng.randrange(1000)
    if sc["cloud"] and rng.random() < 0.25:
        sc["skew"] = rng.choice([-3600.0, 3600.0, 0.5, -0.5])
    nd = rng.choice([1, 1, 2, 3])
    paths = []
    for d in rng.sample(DIRS, nd):
        for f in rng.sample(FILES, rng.choice([1, 2, 2, 3])):
            paths.append(d + "/" + f)
    dirs = sorted({p.rsplit("/", 1)[0] for p in paths})
    hot = rng.choice(paths)
    faulty = rng.random() < 0.5
    clients = ["p%d" % k for k in range(rng.choice([1, 1, 2, 2, 3]))]
    for k in range(rng.choice([1, 2, 3, 4])):
        ph = {"clients": [], "preempt": rng.choice([0.0, 0.1, 0.4])}
        use = rng.sample(clients, rng.randint(1, len(clients)))
        for c in use:
            n = 1 if rng.random() < 0.9 or len(paths) < 2 else 2  # two threads of one process
            for t in range(n):
                # threads of one process share the copies it has, so they keep to their own paths
                mine = paths if n == 1 else paths[t::2]
                ops = [
                    op(rng, hot if hot in mine and rng.random() < 0.4 else rng.choice(mine), dirs)
                    for _ in range(rng.randint(1, 9))
                ]
                ph["clients"].append({"proc": c, "ops": ops})
        if sc["cloud"]:
            # cloudpathlib looks first and acts then: a path that is removed is used by one client only
            gone = {}
            for x, c in enumerate(ph["clients"]):
                for o in c["ops"]:
                    if o[0] == "unlink":
                        gone.setdefault(o[1], x)
            for x, c in enumerate(ph["clients"]):
                c["ops"] = [o for o in c["ops"] if gone.get((o + [""])[1], x) == x] or [["client"]]
        if len(ph["clients"]) > 1 and rng.random() < 0.3:
            ph["line"] = rng.choice([5, 20])
        if faulty and rng.random() < 0.7:
            fs = []
            for _ in range(rng.choice([1, 1, 2])):
                f = common.io_fault(rng, sc["cloud"])
                if f.get("cls") != "cache":
                    f["cls"] = "file"
                f.pop("u", None)
                f["nth"] = rng.choice([1, 1, 2, 3, 5, 8, 13])
                if f["action"] == "eacces" and f["op"] == "listdir":
                    f["action"] = "eio"  # pathlib leaves out what it may not list
                fs.append(f)
            if rng.random() < 0.25:
                fs.append({"op": "*", "action": rng.choice(["kill", "kill_all"]), "nth": rng.randint(1, 60)})
            ph["faults"] = fs
        if rng.random() < 0.3:
            ph["end"] = rng.sample(clients, 1)
        if rng.random() < 0.15:
            ph["gap"] = rng.choice([0.0, 0.0 if sc["cloud"] else -4000.0, 86400.0 * 40])
        sc["runs"].append(ph)
    # afterwards everybody, and somebody new, looks at everything
    fin = [["read_b", p] for p in paths] + [["is_file", p] for p in paths] + [["glob", d, "*"] for d in dirs]
    for c in clients + ["new"]:
        sc["runs"].append({"clients": [{"proc": c, "ops": fin}]})
    return sc


def op(rng, p, dirs):
    r = rng.random()
    if r < 0.26:
        return ["write", p, text(rng), rng.choice(ENC)]
    if r < 0.38:
        ts = [text(rng) for _ in range(rng.choice([1, 2, 3]))]
        return ["open_w", p, ts, rng.choice(ENC), rng.choice([None, None, None, "", "\r\n"])]
    if r < 0.40:
        return ["open_wb", p, text(rng)]
    if r < 0.60:
        return [rng.choice(["read", "read", "lines", "read_b", "read_raw"]), p, rng.choice(ENC)]
    if r < 0.68:
        return [rng.choice(["exists", "is_file"]), p]
    if r < 0.72:
        return [rng.choice(["is_dir", "exists_dir"]), rng.choice(dirs + [p])]
    if r < 0.80:
        return ["glob", rng.choice(dirs), rng.choice(["*", "*", "*.csv"])]
    if r < 0.90:
        return ["unlink", p, rng.random() < 0.6]
    if r < 0.92:
        return ["mkdir", rng.choice(dirs), rng.random() < 0.5, rng.random() < 0.5]
    if r < 0.93:
        return ["unlink_dir", rng.choice(dirs), rng.random() < 0.5]
    if r < 0.94:
        return ["read_dir", rng.choice(dirs)]
    if r < 0.98:
        k = rng.choice(["name", "parent", "join", "join"])
        return [k, p, rng.random() < 0.3, rng.randint(0, 3)]
    return ["client"]


def text(rng):
    t = rng.choice(TEXTS)
    return t if rng.random() < 0.3 else t + str(rng.randrange(1000))


def handler(w, proc, op):
    fs = proc.objs.get("fs")
    if fs is None:
        if w.cloud:
            from wfa_planning_evaluation_framework.filesystem_wrappers import (
                filesystem_cloudpath_wrapper as m,
            )

            fs = m.FilesystemCloudpathWrapper()
            fs.set_default_client_to_gs_client()
        else:
            from wfa_planning_evaluation_framework.filesystem_wrappers import (
                filesystem_pathlib_wrapper as m,
            )

            fs = m.FilesystemPathlibWrapper()
        proc.objs["fs"] = fs
    base = w.base + "/files"
    k = op[0]
    if k == "client":
        if w.cloud:
            fs.set_default_client_to_gs_client()
        return None
    full = base + "/" + op[1]
    if k in WRITES:
        fs.mkdir(fs.parent(full), parents=True, exist_ok=True)
    if k == "write":
        return fs.write_text(full, op[2], encoding=op[3], errors="replace")
    if k == "open_w":
        with fs.open(full, "w", encoding=op[3], errors="replace", newline=op[4]) as f:
            for x in op[2]:
                f.write(x)
        return None
    if k == "open_wb":
        with fs.open(full, mode="wb") as f:
            f.write(op[2].encode("utf-8"))
        return None
    if k == "read":
        with fs.open(full, encoding=op[2]) as f:
            return f.read()
    if k == "read_b":
        with fs.open(full, "rb") as f:
            return f.read()
    if k == "read_raw":
        with fs.open(full, "r", encoding=op[2], newline="") as f:
            return f.read()
    if k == "lines":
        with fs.open(full, "r", encoding=op[2], errors="replace") as f:
            return list(f)
    if k == "read_dir":
        with fs.open(full) as f:
            return f.read()
    if k == "exists" or k == "exists_dir":
        return fs.exists(full)
    if k == "is_file":
        return fs.is_file(full)
    if k == "is_dir":
        return fs.is_dir(full)
    if k == "glob":
        return list(fs.glob(full, op[2]))
    if k == "unlink" or k == "unlink_dir":
        return fs.unlink(full, missing_ok=op[2]) if op[2] else fs.unlink(full)
    if k == "mkdir":
        kw = {n: True for n, v in (("parents", op[2]), ("exist_ok", op[3])) if v}
        return fs.mkdir(full, **kw)
    if k == "name":
        return fs.name(full)
    if k == "parent":
        return fs.parent(full)
    if k == "join":
        return fs.joinpath(*join_args(base, op))
    raise ValueError(k)


def join_args(base, op):
    """The path of op in one or several arguments."""
    parts = op[1].split("/")
    n = min(op[3], len(parts))
    first, rest = "/".join([base] + parts[: len(parts) - n]), parts[len(parts) - n :]
    return [first + ("/" if op[2] and rest else "")] + rest


# -- model ---------------------------------------------------------------------
ANY = object()
WRITES = ("write", "open_w", "open_wb")
READS = ("read", "read_b", "read_raw", "lines")


def content(op):
    """The bytes a completed write leaves."""
    if op[0] == "open_wb":
        return op[2].encode("utf-8")
    t = op[2] if op[0] == "write" else "".join(op[2])
    if op[0] == "open_w" and op[4]:
        t = t.replace("\n", op[4])
    return t.encode(op[3] or "utf-8", "replace")


def read_as(op, data):
    """What reading these bytes gives; None: they cannot be decoded."""
    if op[0] == "read_b":
        return data
    try:
        t = data.decode(op[2] or "utf-8", "replace" if op[0] == "lines" else "strict")
    except UnicodeError:
        return None
    return t if op[0] == "read_raw" else universal(t)


def makes(op, d):
    """Whether the operation makes the directory d."""
    return op[0] in WRITES + ("mkdir",) and (not d or (op[1] + "/" * (op[0] == "mkdir")).startswith(d + "/"))


class Model:
    """For every path: what it may hold, given the history of changes to it."""

    def __init__(self, hist, cloud):
        self.cloud = cloud
        self.hist = hist
        self.muts = {}
        for h in hist:
            if h.op[0] in WRITES or h.op[0] == "unlink":
                self.muts.setdefault(h.op[1], []).append(h)
        self.groups = {}
        for p, ms in self.muts.items():
            ms.sort(key=lambda h: h.begin)
            gs, cur, end = [], [], -1
            for m in ms:
                if cur and m.begin > end:
                    gs.append(cur)
                    cur = []
                cur.append(m)
                end = max(end, m.last)
            if cur:
                gs.append(cur)
            self.groups[p] = gs
        self.timeline = {p: self._states(p) for p in self.muts}

    def _states(self, p):
        """[(first moment, last moment, states after)]; states: set or ANY."""
        s = {None}
        out = []
        for g in self.groups[p]:
            s = self._after(s, g)
            out.append((g[0].begin, max(m.last for m in g), s))
        return out

    def _after(self, s, g):
        if len(g) == 1:
            m = g[0]
            k = m.op[0]
            if k == "unlink":
                if m.ok:
                    return {None}
                if m.exc is not None and not m.faults:
                    return s  # refused
                return ANY if s is ANY else s | {None}
            new = {content(m.op)}
            if m.ok:
                return new
            if not self.cloud:
                return ANY  # the part that was written stays
            return ANY if s is ANY else s | new
        if not self.cloud and len([m for m in g if m.op[0] in WRITES]) > 1:
            return ANY
        if s is ANY:
            return ANY
        if not self.cloud and any(not m.ok for m in g if m.op[0] in WRITES):
            return ANY
        new = set()
        if not any(m.ok and m.op[0] in WRITES for m in g):
            new |= s
        for m in g:
            if m.op[0] == "unlink":
                new.add(None)
            else:
                new.add(content(m.op))
        return new

    def dir_must(self, d, h):
        """Whether directory d certainly existed during operation h."""
        if not self.cloud:
            return any(
                o.ok and o.end < h.begin and makes(o.op, d)
                for o in self.hist
            )
        for p in self.muts:
            if p.startswith(d + "/"):
                s = self.at(p, h.begin, h.end)
                if s is not ANY and None not in s:
                    return True
        return False

    def dir_may(self, d, h):
        return any(
            o is not h
            and o.begin < h.end
            and makes(o.op, d)
            for o in self.hist
        )

    def at(self, p, begin, end):
        """The states p can be observed in during [begin, end]."""
        s = {None}
        for b, e, after in self.timeline.get(p, []):
            if e < begin:
                s = after
            elif b > end:
                break
            else:  # in progress
                if after is ANY or s is ANY:
                    return ANY
                g = [m for x in self.groups[p] for m in x if b <= m.begin <= e]
                if not self.cloud and any(m.op[0] in WRITES for m in g):
                    return ANY
                s = s | after | {None if m.op[0] == "unlink" else content(m.op) for m in g}
        return s


def universal(t):
    return t.replace("\r\n", "\n").replace("\r", "\n")


def judge(sc, out):
    w = script.ScriptWorld(sc, handler).run()
    out.worlds.append(w)
    for r in w.runs:
        if r.status == "limit":
            return out.fail("steps", "operations do not end within %d steps" % w.sim.max_steps)
        if r.status == "hang":
            return out.fail("hang", "the clients wait for each other in phase %d" % r.index)
    if sc.get("kind") == "pattern" and w.hist[-1].ok and w.hist[-1].result == []:
        out.known.append("a pattern such as 'a*', relative to the directory, matches nothing in the object store")
        return
    model = Model(w.hist, w.cloud)
    paths = sorted({p for p in model.muts})
    base = w.base + "/files"
    for h in w.hist:
        if h.end is None:
            out.note("killed_operations")
            continue
        if h.faults:
            out.note("operations_with_faults")
        bad = check(h, model, paths, base, w, out)
        if bad:
            return out.fail(bad[0], "%s storage, operation %s by %s in phase %d: %s" % (
                "cloud" if w.cloud else "local", h.op, h.client, h.phase, bad[1]))
        out.note("operations")
    # what is really stored
    end = w.tick()
    real = w.files("files")
    for p in paths:
        s = model.at(p, end, end)
        if s is ANY:
            continue
        got = real.get("files/" + p)
        if got is None:
            if None not in s:
                return out.fail("stored", "%s is not stored any more" % p)
        elif got not in s:
            return out.fail("stored", "%s holds %r instead of %r" % (p, got[:80], short(s)))


def short(s):
    return sorted(repr(x)[:60] for x in s)[:3]


def poisoned(h, w):
    """A client whose own copy of the object could not be stored or fetched."""
    return w.cloud and any(
        o.proc is h.proc and o.op[0] != "client" and o.op[1:2] == h.op[1:2] and (o.faults or o.exc is not None) and o.begin < h.begin
        for o in w.hist
    )


def overlaps(h, model):
    p = h.op[1]
    return any(m is not h and m.begin < h.last and h.begin < m.last for m in model.muts.get(p, []))


def check(h, model, paths, base, w, out):
    k = h.op[0]
    if k == "client":
        return ("raised", repr(h.exc)) if h.exc is not None and not h.faults else None
    if h.exc is not None:
        if h.faults:
            out.note("reported_faults")
            return None
        p = h.op[1]
        if k in READS:
            s = model.at(p, h.begin, h.end)
            if s is ANY or None in s:
                return None
            if isinstance(h.exc, UnicodeError) and any(read_as(h.op, x) is None for x in s):
                return None
        if k in ("read_dir", "unlink_dir"):
            if k == "unlink_dir" and isinstance(h.exc, FileNotFoundError) and h.op[2]:
                return ("raised", "removal of a missing path is not tolerated")
            return None
        if k == "mkdir" and not w.cloud:
            if isinstance(h.exc, FileExistsError) and not h.op[3] and model.dir_may(p, h):
                return None
            if isinstance(h.exc, FileNotFoundError) and not h.op[2] and not model.dir_must(posixpath.dirname(p), h):
                return None
        if k == "unlink" and not h.op[2]:
            s = model.at(p, h.begin, h.end)
            if s is ANY or None in s:
                return None if isinstance(h.exc, FileNotFoundError) or overlaps(h, model) else ("raised", repr(h.exc))
        if overlaps(h, model) and w.cloud:
            out.note("errors_of_overlapping_operations")
            return None
        if k == "glob" and any(m.begin < h.last and h.begin < m.last for ms in model.muts.values() for m in ms):
            return None
        if w.cloud and type(h.exc).__name__ == "OverwriteNewerLocalError" and poisoned(h, w):
            out.note("client_with_unstored_copy")
            return None
        return ("raised", "without a fault it raises %s: %s" % (type(h.exc).__name__, str(h.exc)[:200]))
    r = h.result
    if k in ("name", "parent", "join"):
        full = base + "/" + h.op[1]
        want = {"name": full.rsplit("/", 1)[1], "parent": full.rsplit("/", 1)[0], "join": full}[k]
        return None if r == want else (k, "gives %r instead of %r" % (r, want))
    if k in WRITES:
        return None
    if k == "glob":
        return glob_check(h, model, paths, base, w)
    p = h.op[1]
    if k == "read_dir":
        return ("read", "a directory was read: %r" % (r,))
    if k == "mkdir":
        if not w.cloud and not h.op[3] and model.dir_must(p, h):
            return (k, "making a directory that exists is not refused")
        if not w.cloud and not h.op[2] and not model.dir_may(posixpath.dirname(p), h):
            return (k, "making a directory in one that does not exist is not refused")
        return None
    if k == "unlink_dir":
        busy = any(m.begin < h.last and h.begin < m.last for q, ms in model.muts.items() if q.startswith(p + "/") for m in ms)
        if model.dir_must(p, h) or not h.op[2] and not busy:
            return (k, "removal of a directory is not refused")
        return None
    if k in ("is_dir", "exists_dir"):
        under = [q for q in paths if q.startswith(p + "/")]
        if not w.cloud and model.dir_must(p, h) and r is not True:
            return (k, "says %r though the directory was made" % r)
        if not w.cloud and under and not model.dir_may(p, h) and r is not False:
            return (k, "says %r though nothing was made there" % r)
        if under:
            states = [model.at(q, h.begin, h.end) for q in under]
            if any(s is not ANY and None not in s for s in states) and r is not True:
                return (k, "says %r though there are files in it" % r)
            if w.cloud and all(s is not ANY and s == {None} for s in states) and r is not False:
                return (k, "says %r though there is nothing" % r)
        elif k == "is_dir" and r and p in paths:
            return (k, "a file is said to be a directory")
        if k == "exists_dir" and p in paths:
            k = "exists"
        else:
            return None
    s = model.at(p, h.begin, h.end)
    if s is ANY:
        return None
    if k in ("exists", "is_file"):
        if r is not True and r is not False:
            return (k, "says %r" % (r,))
        if r and s == {None}:
            return (k, "says True though the path was never written or has been removed")
        if not r and None not in s:
            return (k, "says False though the path was written and not removed")
        return None
    if k == "unlink":
        if s == {None} and not h.op[2] and not overlaps(h, model):
            return (k, "removal of a missing path is not refused")
        return None
    got = "".join(r) if k == "lines" else r
    want = {read_as(h.op, x) for x in s if x is not None} - {None}
    if got not in want:
        return ("read", "reads %r instead of %s" % (got[:80], short(want) or "failing"))
    return None


def glob_check(h, model, paths, base, w):
    d, pat = h.op[1], h.op[2]
    pre = base + "/" + d + "/"
    got = list(h.result)
    if len(set(got)) != len(got):
        return ("glob", "lists an entry twice: %s" % got)
    rel = set()
    for g in got:
        if not g.startswith(pre):
            return ("glob", "lists %r" % g)
        rel.add(g[len(pre):])
    must, may = set(), set()
    for q in paths:
        if not q.startswith(d + "/"):
            continue
        name = q[len(d) + 1 :].split("/")[0]
        if not fnmatch.fnmatchcase(name, pat):
            continue
        s = model.at(q, h.begin, h.end)
        if s is ANY or s != {None} or not w.cloud and "/" in q[len(d) + 1 :]:
            may.add(name)
        if s is not ANY and None not in s:
            must.add(name)
    if not w.cloud:
        # directories stay when they are empty
        made = paths + [o.op[1] + "/" for o in model.hist if o.op[0] == "mkdir"]
        may |= {x.split("/")[0] for x in (q[len(d) + 1 :] for q in made if q.startswith(d + "/")) if "/" in x}
    if must - rel:
        return ("glob", "does not list %s" % sorted(must - rel))
    if rel - may:
        return ("glob", "lists %s" % sorted(rel - may))
    return None


def shape(sc):
    return ("cloud" if sc["cloud"] else "local") + ":%d phases" % len(sc["runs"])


def shrink(sc):
    def mk():
        s = copy.deepcopy(sc)
        s.pop("schedule", None)
        return s

    n = len(sc["runs"])
    for i in range(n):
        if n > 1:
            s = mk()
            del s["runs"][i]
            yield s
    for i, ph in enumerate(sc["runs"]):
        for j in range(len(ph.get("faults", []))):
            s = mk()
            del s["runs"][i]["faults"][j]
            yield s
        for j in range(len(ph["clients"])):
            if len(ph["clients"]) > 1:
                s = mk()
                del s["runs"][i]["clients"][j]
                yield s
        for key in ("line", "preempt", "gap", "end"):
            if ph.get(key):
                s = mk()
                s["runs"][i].pop(key)
                yield s
        for j, c in enumerate(ph["clients"]):
            m = len(c["ops"])
            if m > 3:
                s = mk()
                s["runs"][i]["clients"][j]["ops"] = c["ops"][: m // 2]
                yield s
                s = mk()
                s["runs"][i]["clients"][j]["ops"] = c["ops"][m // 2 :]
                yield s
            for x in range(m):
                if m > 1:
                    s = mk()
                    del s["runs"][i]["clients"][j]["ops"][x]
                    yield s
    for key in ("chunk", "ls_salt", "skew"):
        if sc.get(key):
            s = mk()
            s.pop(key)
            yield s
