"""Runs the pipelines built by the Beam stand-in under the simulator.

Every element and function crosses a pickling boundary as it does in Beam; bundles,
their order, the workers that run them, retries, duplicate attempts and the shape of
the combiner's merge tree are decided by the scenario and the scheduler.
"""
import random

import apache_beam as beam
import dill

from . import core


def _chain(pipeline):
    """Linear segments: [elements, [pardos], combine or None], ..."""
    segs = []
    for node in pipeline.nodes:
        t = node.producer
        if isinstance(t, beam.Create):
            segs.append([list(t.values), [], None])
        elif isinstance(t, beam.ParDo):
            segs[-1][1].append(dill.dumps((t.fn, t.args, t.kwargs)))
        elif isinstance(t, beam.CombineGlobally):
            segs[-1][2] = dill.dumps(t.fn)
            segs.append([None, [], None])
        elif isinstance(t, beam.Reshuffle):
            segs.append([None, [], None])
        else:
            raise core.SimAbort("unknown transform %r" % (t,))
    return segs


class _Stage:
    """The functions of one stage as one worker thread holds them.

    Beam unpickles them once and uses the same objects for bundle after bundle; after
    a bundle has failed they are thrown away.
    """

    def __init__(self, pardos, combine):
        self.pardos = [dill.loads(p) for p in pardos]
        self.combine = None if combine is None else dill.loads(combine)
        for fn, _, _ in self.pardos:
            fn.setup()


def _run_bundle(sim, elements, pardos, combine, held, flush):
    """What a worker does with one bundle: fused ParDos and the lifted combiner."""
    stage = held.pop("stage", None) or _Stage(pardos, combine)
    items = [dill.loads(e) for e in elements]
    for fn, args, kwargs in stage.pardos:
        items = beam.run_dofn(fn, args, kwargs, items)
    if combine is None:
        out = [dill.dumps(x) for x in items]
    else:
        fn, out = stage.combine, []
        acc = fn.create_accumulator()
        for i, x in enumerate(items):
            acc = fn.add_input(acc, x)
            # the table of partial sums is full: it is passed on and begun anew
            if flush and i + 1 < len(items) and i % flush == flush - 1:
                out.append(dill.dumps(fn.compact(acc)))
                acc = fn.create_accumulator()
        out.append(dill.dumps(fn.compact(acc)))
    held["stage"] = stage
    return out


def _merge(rng, combine, accs):
    fn = dill.loads(combine)
    accs = [dill.loads(a) for a in accs]
    if not accs:
        accs = [fn.create_accumulator()]
    rng.shuffle(accs)
    while len(accs) > 1 or rng.random() < 0.3:
        if rng.random() < 0.2:
            accs.insert(rng.randrange(len(accs) + 1), fn.create_accumulator())
        k = rng.randint(1, min(3, len(accs)))
        m = fn.merge_accumulators(accs[:k])
        accs = accs[k:] + [dill.loads(dill.dumps(fn.compact(m)))]
        if len(accs) == 1 and rng.random() < 0.7:
            break
    return fn.extract_output(accs[0])


class _Job:
    def __init__(self, n):
        self.queue = []
        self.running = set()
        self.done = {}
        self.fails = [0] * n
        self.error = None
        self.closed = False


def _segment(sim, cfg, rng, seg, elements):
    values, pardos, combine = seg
    if values is not None:
        elements = [dill.dumps(v) for v in values]
    # bundles
    idx = list(range(len(elements)))
    if cfg.get("shuffle", True):
        rng.shuffle(idx)
    bundles, i = [], 0
    while i < len(idx):
        k = rng.randint(1, max(1, cfg.get("bundle", 3)))
        bundles.append([elements[j] for j in idx[i : i + k]])
        i += k
    flush = rng.choice([0, 0, 1, 2])
    outs = _execute(
        sim,
        cfg,
        rng,
        bundles,
        lambda b, held: _run_bundle(sim, b, pardos, combine, held, flush),
    )
    if combine is None:
        return [x for o in outs for x in o]
    accs = [x for o in outs for x in o]
    return ("combine", combine, accs)


def _execute(sim, cfg, rng, items, work):
    mode = cfg["mode"]
    driver = sim.cur.proc
    if mode == "beam_mem" or not items:
        held = {}
        return [work(b, held) for b in items]
    n = max(1, cfg.get("workers", 2))
    job = _Job(len(items))
    job.queue = list(range(len(items)))
    retries = 4 if mode == "dataflow" else 1
    if mode == "dataflow":
        for d in cfg.get("dup", []):
            job.queue.append(d % len(items))
    from . import world

    def loop(w):
        world.boot(w)
        held = {}
        while True:
            # a worker is not given a bundle again while it is executing it
            free = lambda: [b for b in job.queue if (w.id, b) not in job.running]
            sim.block(lambda: free() or job.closed or driver.dead, "bundle")
            if job.closed or driver.dead and mode != "dataflow":
                return
            if not free():
                return
            b = free()[0]
            job.queue.remove(b)
            if b in job.done and mode != "dataflow":
                continue
            sim.log("bundle", str(b))
            job.running.add((w.id, b))
            try:
                out = work(items[b], held)
            except core.SimKilled:
                if mode == "dataflow" and not job.closed and not driver.dead:
                    job.queue.append(b)
                    start()
                raise
            except Exception as e:
                job.fails[b] += 1
                sim.log("bundle-failed", "%d %s" % (b, type(e).__name__))
                if job.fails[b] >= retries and b not in job.done:
                    job.error = RuntimeError("bundle failed: %r" % (e,))
                    job.closed = True
                    return
                if b not in job.done:
                    job.queue.append(b)
                continue
            finally:
                job.running.discard((w.id, b))
            sim.point("bundle.commit")
            if b not in job.done:
                job.done[b] = out

    def start():
        if mode == "beam_threads":
            sim.spawn(
                driver, lambda: loop(driver), "thread", trace_lines=bool(sim.line_mean)
            )
        else:
            w = sim.new_proc("worker", driver.run, driver, driver.salt + 1, driver.cwd)
            for i in range(cfg.get("threads", 1) if mode == "dataflow" else 1):
                sim.spawn(w, lambda: loop(w), "beam", trace_lines=bool(sim.line_mean))

    for i in range(n):
        start()
    sim.block(lambda: job.error is not None or len(job.done) == len(items), "pipeline")
    job.closed = job.closed or not cfg.get("linger", False)
    if job.error is not None:
        job.closed = True
        raise job.error
    return [job.done[i] for i in range(len(items))]


def run(pipeline):
    sim = core.current()
    if sim is None:
        raise core.SimAbort("pipeline run outside a simulated task")
    opts = pipeline.options.get_all_options()
    runner = opts.get("runner")
    cfg = dict(sim.beam_cfg)
    if runner in ("dataflow", "DataflowRunner"):
        cfg["mode"] = "dataflow"
    else:
        cfg["mode"] = {
            "in_memory": "beam_mem",
            "multi_threading": "beam_threads",
            "multi_processing": "beam_procs",
        }[opts.get("direct_running_mode") or "in_memory"]
        cfg["workers"] = opts.get("direct_num_workers") or 1
        if cfg["workers"] == 0:
            cfg["workers"] = 3
    rng = random.Random("beam:%s:%d" % (cfg.get("seed", 0), sim.cur.proc.id))
    elements = None
    for seg in _chain(pipeline):
        if isinstance(elements, tuple):
            _, combine, accs = elements
            # the merge runs on some worker
            mseed = rng.random()
            (out,) = _execute(
                sim,
                dict(cfg, dup=cfg.get("dup_merge", [])),
                rng,
                [accs],
                lambda a, held: _finish(sim, mseed, combine, a, seg),
            )
            if seg[2] is None:
                elements = out
                continue
            elements = out
        elements = _segment(sim, cfg, rng, seg, elements)


def _finish(sim, mseed, combine, accs, seg):
    """The merge and everything fused after it."""
    value = _merge(random.Random(mseed), combine, accs)
    items = [value]
    for p in seg[1]:
        fn, args, kwargs = dill.loads(p)
        fn.setup()
        items = beam.run_dofn(fn, args, kwargs, items)
        fn.teardown()
    if seg[2] is not None:
        raise core.SimAbort("two combiners in one pipeline are not simulated")
    return [dill.dumps(x) for x in items]


def install():
    beam.runner = run
