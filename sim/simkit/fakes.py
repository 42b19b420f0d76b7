"""Modeling strategies given to the code under test.

`fake` is a synthetic strategy whose use of measurements, randomness and failures is
part of the scenario; the repository's own strategies are wrapped by a recorder and
otherwise run as they are.
"""
import random
import sys
import zlib

import numpy as np
from wfa_cardinality_estimation_evaluation_framework import hooks

from . import core

EXCEPTIONS = {
    "ValueError": ValueError,
    "RuntimeError": RuntimeError,
    "ZeroDivisionError": ZeroDivisionError,
    "MemoryError": MemoryError,
    "RecursionError": RecursionError,
    "OSError": OSError,
    "FileNotFoundError": FileNotFoundError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "AssertionError": AssertionError,
    "NotImplementedError": NotImplementedError,
    "StopIteration": StopIteration,
    "LinAlgError": np.linalg.LinAlgError,
    "TypeError": TypeError,
    "ArithmeticError": ArithmeticError,
    "Exception": Exception,
    "TimeoutError": TimeoutError,
    "ConnectionError": ConnectionError,
    "FloatingPointError": FloatingPointError,
    "LookupError": LookupError,
    "AttributeError": AttributeError,
    "UserError": type("UserError", (Exception,), {}),
}


class _Ctx:
    """One fit: everything seen from the model's side."""

    def __init__(self, sim, ident):
        t = sim.cur
        self.ident = ident
        self.run = t.proc.run
        self.proc = t.proc
        self.task = t
        self.begin = sim.step
        self.end = None
        self.points = []
        self.values = []  # (spends, what the model predicts there)
        self.data0 = None  # reaches of the first training point
        self.truth = []  # spends at which the true reach was asked for
        self.max_freqs = set()
        self.requests = []  # every measurement that returned, with its noise
        self.noise_script = None
        self.draws = []
        self.noised = []
        self.measures = []  # budgets of measurements that returned
        self.measure_failed = []
        self.lib_raised = False
        self.noise = 0.0  # epsilon of the noisers used in completed measurements
        self.noise_delta = 0.0
        self._open = None
        self.pending = sim.world.pending_now() if sim.world is not None else {}
        self.max_spends = None
        self.failed = None
        self.extra = []  # noising events appended by the strategy itself
        self.fingerprint = None


def _begin(ident, halo, params, budget, ctor):
    sim = core.current()
    ctx = _Ctx(sim, ident)
    ctx.max_spends = tuple(halo.max_spends)
    ll = params.liquid_legions
    ctx.fingerprint = (
        ctor,
        tuple(params.campaign_spend_fractions),
        (ll.decay_rate, ll.sketch_size, ll.random_seed),
        (budget.epsilon, budget.delta),
        ctx.max_spends,
    )
    ctx.budget = (budget.epsilon, budget.delta)
    sim.cur.ctx = ctx
    if sim.world is not None:
        sim.world.fits.append(ctx)
        if sim.world.on_fit is not None:
            sim.world.on_fit(sim, ctx)
    sim.point("model.fit")
    _wrap_halo(halo, ctx)
    return sim, ctx


def _wrap_halo(halo, ctx):
    def wrap(name):
        orig = getattr(halo, name)

        def call(*args, **kwargs):
            sim = core.current()
            if ctx._open is not None:  # a measurement made by means of another
                return orig(*args, **kwargs)
            budget = kwargs.get("budget", args[1] if len(args) > 1 else None)
            sim.point("model.measure")
            ctx._open = [{}, 0.0]
            nd = len(ctx.draws)
            try:
                r = orig(*args, **kwargs)
            except Exception:
                ctx.measure_failed.append((budget.epsilon, budget.delta))
                ctx._open = None
                raise
            ctx.requests.append((name, args, kwargs, ctx.draws[nd:], _points(r), ctx.noised[nd:]))
            empty = name == "simulated_venn_diagram_reach_by_spend" and not r
            if not empty:
                ctx.measures.append((budget.epsilon, budget.delta, "venn" if "venn" in name else "reach"))
            ctx.noise += sum(e for e, _ in ctx._open[0].values())
            ctx.noise_delta += ctx._open[1]
            ctx._open = None
            return r

        setattr(halo, name, call)

    truth = halo.true_reach_by_spend

    def true_reach_by_spend(*args, **kwargs):
        spends = args[0] if args else kwargs["spends"]
        if ctx.end is not None:  # not part of a measurement
            ctx.truth.append(tuple(float(x) for x in spends))
        return truth(*args, **kwargs)

    halo.true_reach_by_spend = true_reach_by_spend
    wrap("simulated_reach_by_spend")
    if hasattr(halo, "simulated_venn_diagram_reach_by_spend"):
        wrap("simulated_venn_diagram_reach_by_spend")


def _on_noise(kind, epsilon, delta, source=None):
    sim = core.current()
    if sim is None or sim.cur.ctx is None:
        return
    ctx = sim.cur.ctx
    if ctx._open is None:
        return
    if kind == "delta":
        ctx._open[1] += delta
    else:
        ctx._open[0][id(source)] = (epsilon, source)


def _points(r):
    return [
        (
            [float(x) for x in p.impressions],
            [float(p.reach(k + 1)) for k in range(p.max_frequency)],
            [float(x) for x in p.spends] if p.spends is not None else None,
        )
        for p in (r if isinstance(r, list) else [r])
    ]


def _on_draw(value, x=None):
    sim = core.current()
    ctx = sim.cur.ctx if sim is not None else None
    if ctx is None:
        return value
    if ctx.noise_script:
        v = ctx.noise_script[len(ctx.draws) % len(ctx.noise_script)]
        value = value if v is None else v
    ctx.draws.append(value)
    ctx.noised.append(x)
    return value


def _on_call(name):
    sim = core.current()
    if sim is None:
        return
    act = sim.point("lib." + name)
    if act and act.startswith("raise:"):
        if sim.cur.ctx is not None:
            sim.cur.ctx.lib_raised = True
        raise EXCEPTIONS[act[6:]]("injected inside a measurement")


def _fail(spec):
    raise EXCEPTIONS[spec.get("exc", "ValueError")](spec.get("msg", "injected"))


def _value(ctx, spends, p):
    v = [float(p.reach(k + 1)) for k in range(p.max_frequency)]
    ctx.values.append((tuple(float(x) for x in spends), v))


class FakeSurface:
    """Mixed into the base class of the real models by _surface."""

    def sim_init(self, ctx, behave, maxs, level, RP):
        self.sim_ctx, self.sim_b, self.sim_max = ctx, behave, maxs
        self.sim_level = level
        self.sim_RP = RP
        self.sim_n = 0
        return self

    def by_spend(self, spend=None, max_frequency=1, spends=None):
        spends = spend if spends is None else spends
        self.sim_n += 1
        self.sim_ctx.points.append(tuple(float(x) for x in spends))
        self.sim_ctx.max_freqs.add(max_frequency)
        if self.sim_n % 40 == 1:
            core.current().point("model.by_spend")
        f = self.sim_b.get("fail") or {}
        if f.get("where") == "by_spend" and self.sim_n >= f.get("n", 1):
            self.sim_ctx.failed = "by_spend"
            if f.get("how") == "none":
                return None
            if f.get("how") == "text":
                return "not a reach point"
            if f.get("how") == "empty":
                return self.sim_RP([0] * len(spends), [], list(spends))
            _fail(f)
        x = sum(min(s, m) / m for s, m in zip(spends, self.sim_max)) / len(self.sim_max)
        r = self.sim_level * (0.1 + x)
        p = self.sim_RP(
            [int(100 * s) for s in spends],
            [r / (k + 1) ** (1 + self.sim_level % 1) for k in range(max_frequency)],
            list(spends),
        )
        _value(self.sim_ctx, spends, p)
        return p


def _surface(ctx, behave, maxs, level, data, RP):
    from wfa_planning_evaluation_framework.models.reach_surface import ReachSurface

    cls = type("FakeSurface", (FakeSurface, ReachSurface), {})
    return cls(data[:1]).sim_init(ctx, behave, maxs, level, RP)


class FakeStrategy:
    NAME = "fake"

    def __init__(self, spm, spkw, mpm, mpkw, **kw):
        sim = core.current()
        self._kw = kw
        self._ctor = (
            self.NAME,
            repr(sorted(kw.items())),
            getattr(spm, "__name__", None),
            repr(sorted(spkw.items())),
            getattr(mpm, "__name__", None),
            repr(sorted(mpkw.items())),
        )
        self._b = sim.world.behave(kw.get("id"))

    def fit(self, halo, params, budget):
        b = self._b
        sim, ctx = _begin(self._kw.get("id"), halo, params, budget, self._ctor)
        RP = sys.modules[core.PKG + ".models.reach_point"].ReachPoint
        PT = sys.modules[core.PKG + ".simulator.privacy_tracker"]
        ctx.noise_script = b.get("noise")
        fail = b.get("fail") or {}
        if fail.get("where") == "fit" and fail.get("n", 0) == 0:
            ctx.failed = "fit"
            _fail(fail)
        # what is fitted depends on the whole configuration
        level = 10.0 + zlib.crc32(repr(ctx.fingerprint).encode()) % 9973 / 997.0
        data = []
        use = b.get("rng") or {}
        for _ in range(use.get("np", 0)):
            x = np.random.random()
            if use.get("npuse"):
                level += x
        if use.get("npseed") is not None:
            np.random.seed(use["npseed"])
        for _ in range(use.get("py", 0)):
            random.random()
        for _ in range(use.get("gen", 0)):
            level += float(params.generator.random())
        for i, m in enumerate(b.get("measures", [{}])):
            if fail.get("where") == "fit" and fail.get("n") == i:
                ctx.failed = "fit"
                _fail(fail)
            sp = list(halo.campaign_spends)
            only = m.get("only")
            if m.get("spends"):
                sp = [x * m["spends"][j % len(m["spends"])] for j, x in enumerate(halo.max_spends)]
            if only is not None:
                sp = [x if j == only % len(sp) else 0.0 for j, x in enumerate(sp)]
            q = PT.PrivacyBudget(
                budget.epsilon * m.get("part", 0.25), budget.delta * m.get("part", 0.25)
            )
            if m.get("venn"):
                pts = halo.simulated_venn_diagram_reach_by_spend(
                    sp, q, m.get("split", 0.5)
                )
                level += sum(float(p.reach()) for p in pts) / (1 + len(pts))
            else:
                p = halo.simulated_reach_by_spend(
                    sp, q, m.get("split", 0.5), max_frequency=m.get("mf", 1)
                )
                level += float(p.reach())
                data.append(p)
        for e in b.get("events", []):
            halo.privacy_tracker.append(
                PT.NoisingEvent(
                    PT.PrivacyBudget(e["eps"], e["delta"]),
                    e.get("mech", PT.DP_NOISE_MECHANISM_LAPLACE),
                    {},
                    PT.SamplingBucketIndices(e["lo"], e["rate"]),
                )
            )
            ctx.extra.append(e)
        if not data:
            data = [RP([1] * len(halo.max_spends), [1.0, 1.0])]
        if fail.get("where") == "fit" and fail.get("n") == "end":
            ctx.failed = "fit"
            _fail(fail)
        ctx.end = sim.step
        sim.point("model.fitted")
        if fail.get("where") == "fit" and fail.get("n") == "none":
            ctx.failed = "fit"
            return None
        ctx.data0 = _points(data[0])[0][1]
        return _surface(ctx, b, ctx.max_spends, level, data, RP)


class FakeStrategyE(FakeStrategy):
    NAME = "efake"


class FakeStrategy2(FakeStrategy):
    NAME = "fake2"


def _recorder(name, cls):
    class Recorder(cls):
        def __init__(self, spm, spkw, mpm, mpkw, **kw):
            self.sim_ctor = (
                name,
                repr(sorted(kw.items())),
                getattr(spm, "__name__", None),
                repr(sorted(spkw.items())),
                getattr(mpm, "__name__", None),
                repr(sorted(mpkw.items())),
            )
            cls.__init__(self, spm, spkw, mpm, mpkw, **kw)

        def fit(self, halo, params, budget):
            sim, ctx = _begin(None, halo, params, budget, self.sim_ctor)
            ctx.supplied = True
            try:
                surface = cls.fit(self, halo, params, budget)
            except Exception as e:
                ctx.failed = "fit:" + type(e).__name__
                raise
            ctx.end = sim.step
            sim.point("model.fitted")
            known = getattr(surface, "_data", None)
            ctx.data0 = _points(known[0])[0][1] if known else None
            orig = surface.by_spend

            def by_spend(*a, **k):
                spends = a[0] if a else k["spends"] if "spends" in k else k["spend"]
                ctx.points.append(tuple(float(x) for x in spends))
                p = orig(*a, **k)
                _value(ctx, spends, p)
                return p

            surface.by_spend = by_spend
            return surface

    Recorder.__name__ = Recorder.__qualname__ = cls.__name__
    return Recorder


def register():
    """In the calling simulated process: install the strategies."""
    from wfa_planning_evaluation_framework.driver import modeling_strategy_descriptor

    d = modeling_strategy_descriptor.MODELING_STRATEGIES
    for name, cls in list(d.items()):
        if not issubclass(cls, FakeStrategy):
            d[name] = _recorder(name, cls)
    d["fake"] = FakeStrategy
    d["efake"] = FakeStrategyE
    d["fake2"] = FakeStrategy2


def install():
    hooks.on_noise = _on_noise
    hooks.on_draw = _on_draw
    hooks.on_call = _on_call
