"""Seeded search over simulated histories: generate, run, judge, minimise, replay.

  engine.py check <property>            environment: VERIF_SEED, VERIF_TIER
  engine.py replay <file>
  engine.py selftest [n]                determinism: every scenario twice, digests compared
"""
import copy
import importlib
import json
import os
import random
import select
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path[:0] = [HERE, os.path.join(HERE, "stubs")]

WORKERS = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
# One scenario takes seconds; one that makes no progress for this long never will.
STUCK_S = 400.0
RECYCLE = 60  # scenarios per worker process, to bound memory


def load(prop):
    return importlib.import_module("props." + prop.lower())


def scenario_for(mod, seed, i):
    rng = random.Random("%s:%d:%d" % (mod.ID, seed, i))
    sc = mod.gen(rng, i)
    sc["id"] = "%d/%d" % (seed, i)
    return sc


class Out:
    """What judging one scenario yields."""

    def __init__(self):
        self.violation = None  # {"kind":, "what":}
        self.known = []
        self.worlds = []
        self.skipped = None
        self.notes = {}

    def fail(self, kind, what):
        if self.violation is None:
            self.violation = {"kind": kind, "what": str(what)[:1500]}

    def note(self, key, n=1):
        self.notes[key] = self.notes.get(key, 0) + n


def judge(mod, sc):
    """Runs one scenario; harness trouble is kept apart from violations."""
    from simkit import core

    out = Out()
    try:
        mod.judge(sc, out)
    except core.SimAbort as e:
        out.skipped = "SimAbort: %s" % e
        out.violation = None
    except Exception:
        out.skipped = traceback.format_exc()[-1500:]
        out.violation = None
    for k in out.known:
        if k not in known_findings(mod.ID):
            out.fail("finding", k)
    return out


def known_findings(pid):
    """What the committed file lists for the property; nothing else is tolerated."""
    head = "finding: property=%s " % pid
    with open(os.path.join(VERIF, "KNOWN_FINDINGS")) as f:
        return {l[len(head):].rstrip("\n") for l in f if l.startswith(head)}


def stats_of(out):
    st = {
        "runs": 0,
        "steps": 0,
        "lines": 0,
        "switches": 0,
        "sim_s": 0.0,
        "fired": {},
        "sched": [],
        "digest": [],
        "notes": out.notes,
        "ops": 0,
    }
    for w in out.worlds:
        s = w.sim
        st["runs"] += len(getattr(w, "runs", [])) or 1
        st["steps"] += s.step
        st["lines"] += s.lines
        st["switches"] += s.switches
        st["sim_s"] += getattr(w, "sim_seconds", 0.0)
        for k, v in s.fired.items():
            st["fired"][k] = st["fired"].get(k, 0) + v
        st["sched"].append(s.sched_digest.hexdigest())
        st["digest"].append(s.digest.hexdigest())
    return st


# -- minimisation --------------------------------------------------------------
def record_schedule(sc, out):
    """The failing scenario with its scheduling decisions written out."""
    if not out.worlds or sc.get("schedule") is not None:
        return None
    w = out.worlds[-1]
    if len(out.worlds) != 1:
        return None
    s = copy.deepcopy(sc)
    s["schedule"] = [list(c) for c in w.sim.choices]
    return s


def minimise(mod, sc, out, budget_s):
    end = time.time() + budget_s
    kind = out.violation["kind"]
    best, tried = sc, 0

    def fails(c):
        nonlocal tried
        tried += 1
        o = judge(mod, c)
        return o if o.violation is not None and o.violation["kind"] == kind else None

    progress = True
    while progress and time.time() < end:
        progress = False
        for cand in mod.shrink(best):
            if time.time() > end:
                break
            o = fails(cand)
            if o is not None:
                best, out, progress = cand, o, True
                break
    # write the schedule out and thin it
    s = record_schedule(best, out)
    if s is not None:
        o = fails(s)
        if o is not None:
            best, out = s, o
            n = 2
            while time.time() < end and len(best["schedule"]) >= 1:
                sch = best["schedule"]
                size = max(1, len(sch) // n)
                hit = False
                for i in range(0, len(sch), size):
                    if time.time() > end:
                        break
                    c = dict(best, schedule=sch[:i] + sch[i + size :])
                    o = fails(c)
                    if o is not None:
                        best, out, hit = c, o, True
                        break
                if not hit:
                    if size == 1:
                        break
                    n *= 2
    return best, out, tried


def write_replay(mod, sc, out, seed, tried):
    d = os.path.join(VERIF, "evidence", "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%s.json" % (mod.ID, str(sc.get("id", "x")).replace("/", "_")))
    tail = out.worlds[-1].sim.tail[-120:] if out.worlds else []
    with open(path, "w") as f:
        json.dump(
            {
                "property": mod.ID,
                "seed": seed,
                "scenario": sc,
                "violation": out.violation,
                "digests": [w.sim.digest.hexdigest() for w in out.worlds],
                "candidates_tried": tried,
                "trace_tail": [list(map(str, t)) for t in tail],
            },
            f,
            indent=1,
        )
    return path


# -- worker processes -----------------------------------------------------------
def worker(mod, seed, ids, wfd, deadline, det_every):
    """Runs scenarios and reports one JSON line each."""

    def send(d):
        data = (json.dumps(d) + "\n").encode()
        while data:
            n = os.write(wfd, data)
            data = data[n:]

    for i in ids:
        if time.time() > deadline:
            break
        send({"start": i})
        sc = scenario_for(mod, seed, i)
        t0 = time.time()
        out = judge(mod, sc)
        rec = {
            "i": i,
            "stats": stats_of(out),
            "skipped": out.skipped,
            "known": out.known,
            "shape": mod.shape(sc),
            "secs": time.time() - t0,
        }
        if i % det_every == 0 and out.skipped is None:
            again = judge(mod, scenario_for(mod, seed, i))
            rec["det"] = [w.sim.digest.hexdigest() for w in again.worlds] == rec["stats"][
                "digest"
            ] and (again.violation is None) == (out.violation is None)
        if out.violation is not None:
            rec["violation"] = out.violation
            best, o, tried = minimise(mod, sc, out, 60.0)
            rec["violation"] = o.violation
            rec["replay"] = write_replay(mod, best, o, seed, tried)
        send(rec)
    send({"end": True})


def fork_worker(mod, seed, ids, deadline, det_every):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            worker(mod, seed, ids, w, deadline, det_every)
        except BaseException:
            traceback.print_exc()
            code = 3
        os._exit(code)
    os.close(w)
    return pid, r


def search(mod, seed, total, budget_s, det_every=40, stop_on=1):
    """Distributes scenarios 0..total-1 over worker processes."""
    t0 = time.time()
    deadline = t0 + budget_s
    blocks = [list(range(k, total, WORKERS)) for k in range(WORKERS)]
    queue = []
    for b in blocks:
        for j in range(0, len(b), RECYCLE):
            queue.append((j, b[j : j + RECYCLE]))
    queue.sort(key=lambda x: x[0])
    queue = [b for _, b in queue]
    live = {}
    recs, trouble = [], []
    stop = False

    def launch():
        while queue and len(live) < WORKERS and not stop and time.time() < deadline:
            ids = queue.pop(0)
            pid, fd = fork_worker(mod, seed, ids, deadline, det_every)
            live[fd] = {"pid": pid, "buf": b"", "cur": None, "since": time.time(), "ids": ids}

    launch()
    while live:
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            data = os.read(fd, 65536)
            st = live[fd]
            if not data:
                os.close(fd)
                os.waitpid(st["pid"], 0)
                if st["cur"] is not None:
                    trouble.append({"i": st["cur"], "what": "worker process died"})
                    rest = st["ids"][st["ids"].index(st["cur"]) + 1 :]
                    if rest and not stop and len(trouble) < 20:
                        queue.append(rest)
                del live[fd]
                continue
            st["buf"] += data
            while b"\n" in st["buf"]:
                line, st["buf"] = st["buf"].split(b"\n", 1)
                d = json.loads(line.decode())
                if "start" in d:
                    st["cur"], st["since"] = d["start"], time.time()
                elif "end" in d:
                    st["cur"] = None
                else:
                    st["cur"] = None
                    recs.append(d)
                    if "violation" in d and len([r for r in recs if "violation" in r]) >= stop_on:
                        stop = True
        now = time.time()
        for fd in list(live):
            st = live[fd]
            if stop and "killed" not in st and not (
                st["cur"] is not None and now - st["since"] < 0
            ):
                st["killed"] = True
                st["cur"] = None
                os.kill(st["pid"], signal.SIGKILL)
            elif st["cur"] is not None and now - st["since"] > STUCK_S and "killed" not in st:
                st["killed"] = True
                recs.append(
                    {
                        "i": st["cur"],
                        "stuck": True,
                        "violation": {
                            "kind": "stuck",
                            "what": "no progress for %d s of real time" % STUCK_S,
                        },
                    }
                )
                st["cur"] = None
                os.kill(st["pid"], signal.SIGKILL)
                stop = True
        launch()
    return recs, trouble, time.time() - t0


def main_check(prop):
    from simkit import boot

    t_start = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    boot.start()
    mod = load(prop)
    total, budget = mod.BUDGET[tier]
    if os.environ.get("VERIF_N"):
        total = int(os.environ["VERIF_N"])
    if os.environ.get("VERIF_BUDGET_S"):
        budget = float(os.environ["VERIF_BUDGET_S"])
    print("property=%s seed=%d tier=%s workers=%d" % (mod.ID, seed, tier, WORKERS))
    sys.stdout.flush()
    recs, trouble, wall = search(mod, seed, total, budget)
    viol = [r for r in recs if "violation" in r]
    for r in viol:
        if r.get("stuck"):
            sc = scenario_for(mod, seed, r["i"])
            o = Out()
            o.violation = r["violation"]
            r["replay"] = write_replay(mod, sc, o, seed, 0)
    known = sorted({k for r in recs for k in r.get("known", [])})
    evidence(mod, seed, tier, recs, trouble, wall, viol, known, time.time() - t_start)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (mod.ID, k))
    done = [r for r in recs if "stats" in r]
    skipped = [r for r in done if r.get("skipped")]
    print(
        "%d scenarios, %d simulated runs in %.1f s; %d skipped by harness trouble, %d worker deaths"
        % (len(done), sum(r["stats"]["runs"] for r in done), wall, len(skipped), len(trouble))
    )
    for r in skipped[:2]:
        print("  harness: scenario %s: %s" % (r["i"], r["skipped"].strip().split("\n")[-1][:300]))
    for t in trouble[:3]:
        print("  harness: scenario %s: %s" % (t["i"], t["what"]))
    nd = [r["i"] for r in done if r.get("det") is False]
    if nd:
        print("  harness: not reproducible: scenarios %s" % nd[:10])
    for r in viol[:3]:
        print("violation (%s): %s" % (r["violation"]["kind"], r["violation"]["what"]))
        print("VIOLATION property=%s replay=%s" % (mod.ID, r["replay"]))
    if not viol and len(skipped) + len(trouble) > max(1, len(done)) // 2:
        print("no answer: most scenarios could not be judged")
        boot.hard_exit(2)
    boot.hard_exit(1 if viol else 0)


def evidence(mod, seed, tier, recs, trouble, wall, viol, known, total_wall):
    done = [r for r in recs if "stats" in r]
    fired, notes, shapes = {}, {}, {}
    sched, digests = set(), set()
    nontrivial = set()
    for r in done:
        st = r["stats"]
        for k, v in st["fired"].items():
            fired[k] = fired.get(k, 0) + v
        for k, v in st["notes"].items():
            notes[k] = notes.get(k, 0) + v
        sched.update(st["sched"])
        digests.update(st["digest"])
        shapes[r["shape"]] = shapes.get(r["shape"], 0) + 1
        if st["steps"] > 20 and not r["skipped"]:
            nontrivial.add(tuple(st["digest"]))
    runs = sum(r["stats"]["runs"] for r in done)
    samples = []
    for r in done[:2]:
        samples.append(
            {
                "scenario": scenario_for(mod, seed, r["i"]),
                "digest": r["stats"]["digest"],
                "faults_fired": r["stats"]["fired"],
            }
        )
    by_kind = {}
    for k, v in fired.items():
        a = k.split("@")[0]
        by_kind[a] = by_kind.get(a, 0) + v
    doc = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": len(done),
            "distinct_nontrivial": len(nontrivial),
            "rule": mod.RULE
            + " Non-trivial: more than 20 simulated operations; distinct: by the digest of the whole event log.",
            "samples": samples,
            "simulated_runs": runs,
            "runs_per_hour": int(runs / wall * 3600) if wall > 0 else 0,
            "scenarios_per_hour": int(len(done) / wall * 3600) if wall > 0 else 0,
            "simulated_seconds": round(sum(r["stats"]["sim_s"] for r in done), 1),
            "simulated_operations": sum(r["stats"]["steps"] for r in done),
            "traced_source_lines": sum(r["stats"]["lines"] for r in done),
            "task_switches": sum(r["stats"]["switches"] for r in done),
            "faults_fired_by_kind": dict(sorted(by_kind.items())),
            "faults_fired_by_site": dict(sorted(fired.items())),
            "distinct_interleavings": len(sched),
            "interleaving_measure": "digest of the sequence of (operation number, task resumed)",
            "distinct_event_logs": len(digests),
            "scenario_shapes": dict(sorted(shapes.items())),
            "probes": dict(sorted(notes.items())),
            "skipped_by_harness": len([r for r in done if r["skipped"]]),
            "worker_deaths": len(trouble),
            "slowest_scenarios": sorted(([round(r["secs"], 1), r["i"]] for r in done), reverse=True)[:3],
            "determinism_rechecks": len([r for r in done if "det" in r]),
            "determinism_failures": len([r for r in done if r.get("det") is False]),
            "real_components": mod.REAL,
            "stub_components": mod.STUB,
            "known_findings": known,
        },
        "assumptions": mod.ASSUME,
        "wall_s": round(total_wall, 1),
        "violations": len(viol),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", mod.ID + ".json"), "w") as f:
        json.dump(doc, f, indent=1)


def main_replay(path):
    from simkit import boot

    with open(path) as f:
        doc = json.load(f)
    boot.start()
    mod = load(doc["property"])
    out = judge(mod, doc["scenario"])
    dig = [w.sim.digest.hexdigest() for w in out.worlds]
    if out.skipped:
        print("harness trouble: " + out.skipped)
    if out.violation is None:
        print("no violation")
        boot.hard_exit(0)
    print("violation (%s): %s" % (out.violation["kind"], out.violation["what"]))
    print("event log %s" % ("identical" if dig == doc["digests"] else "DIFFERS"))
    if "-v" in sys.argv:
        for w in out.worlds:
            for t in w.sim.tail[-100:]:
                print("  ", *t)
            for r in getattr(w, "runs", []):
                print("  run", r.index, r.status, r.error, r.tb or "")
    print("VIOLATION property=%s replay=%s" % (mod.ID, path))
    boot.hard_exit(1)


def main_selftest(props, n):
    """Every scenario in two processes that start from different states."""
    from simkit import boot

    boot.start()
    bad = 0
    for prop in props:
        mod = load(prop)
        digs = []
        for order in (list(range(n)), list(reversed(range(n)))):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                res = {}
                for i in order:
                    o = judge(mod, scenario_for(mod, 7, i))
                    res[i] = [x.sim.digest.hexdigest() for x in o.worlds] + [
                        str(o.violation),
                        str(o.skipped)[-200:],
                    ]
                with os.fdopen(w, "w") as f:
                    json.dump(res, f)
                os._exit(0)
            os.close(w)
            digs.append((pid, r))
        got = []
        for pid, r in digs:
            with os.fdopen(r) as f:
                got.append(json.load(f))
            os.waitpid(pid, 0)
        diff = [i for i in got[0] if got[0][i] != got[1][i]]
        print("%s: %d scenarios twice, %d differ %s" % (mod.ID, n, len(diff), diff[:5]))
        for i in diff[:2]:
            print("   ", got[0][i], got[1][i])
        bad += len(diff)
    boot.hard_exit(1 if bad else 0)


if __name__ == "__main__":
    for stream in (sys.stdout, sys.stderr):
        stream.reconfigure(errors="backslashreplace")
    cmd = sys.argv[1]
    if cmd == "check":
        main_check(sys.argv[2])
    elif cmd == "replay":
        main_replay(sys.argv[2])
    elif cmd == "selftest":
        ps = sys.argv[3:] or ["C%02d" % i for i in range(1, 15)]
        main_selftest(ps, int(sys.argv[2]) if len(sys.argv) > 2 else 20)
    elif cmd == "one":
        from simkit import boot

        boot.start()
        m = load(sys.argv[2])
        for i in map(int, sys.argv[3].split(",")):
            s = scenario_for(m, int(os.environ.get("VERIF_SEED", "1")), i)
            if "-p" in sys.argv:
                print(json.dumps(s, indent=1))
            t0 = time.time()
            o = judge(m, s)
            print(i, "violation", o.violation, "skipped", o.skipped, "%.2fs" % (time.time() - t0))
            for w in o.worlds:
                print("   world", w.sim.step, [(r.status, str(r.error)[:200]) for r in getattr(w, "runs", [])], w.sim.fired, o.notes)
            if "-t" in sys.argv:
                for w in o.worlds:
                    for r in getattr(w, "runs", []):
                        if r.tb:
                            print(r.tb)
        boot.hard_exit(0)
