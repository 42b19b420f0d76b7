"""Stub of the part of Apache Beam this repository uses.

The graph is built for real (Pipeline, |, >>, Create, ParDo, Map, FlatMap,
CombineGlobally); execution is delegated to `runner`, which the simulator replaces.
Without a simulator everything runs in the calling thread, elements and functions
being pickled the way Beam's runners do.
"""
import itertools

import dill

from .options.pipeline_options import PipelineOptions  # noqa: F401

runner = None  # f(pipeline): set by the simulator


class PTransform:
    label = None

    def __rrshift__(self, label):
        self.label = label
        return self

    def __ror__(self, left):
        if isinstance(left, (Pipeline, PCollection)):
            return left._apply(self)
        raise TypeError("cannot apply a transform to %r" % (left,))


class DoFn:
    def setup(self):
        pass

    def start_bundle(self):
        pass

    def process(self, element, *args, **kwargs):
        raise NotImplementedError()

    def finish_bundle(self):
        pass

    def teardown(self):
        pass


class CombineFn:
    def create_accumulator(self, *a, **k):
        raise NotImplementedError()

    def add_input(self, accumulator, element):
        raise NotImplementedError()

    def merge_accumulators(self, accumulators):
        raise NotImplementedError()

    def compact(self, accumulator):
        return accumulator

    def extract_output(self, accumulator):
        raise NotImplementedError()


class _CallableCombineFn(CombineFn):
    def __init__(self, fn):
        self._fn = fn

    def create_accumulator(self):
        return []

    def add_input(self, accumulator, element):
        return accumulator + [element]

    def merge_accumulators(self, accumulators):
        return list(itertools.chain.from_iterable(accumulators))

    def extract_output(self, accumulator):
        return self._fn(accumulator)


class _CallableDoFn(DoFn):
    def __init__(self, fn, flat):
        self._fn, self._flat = fn, flat

    def process(self, element, *args, **kwargs):
        r = self._fn(element, *args, **kwargs)
        return r if self._flat else [r]


class _FilterDoFn(DoFn):
    def __init__(self, fn):
        self._fn = fn

    def process(self, element, *args, **kwargs):
        return [element] if self._fn(element, *args, **kwargs) else []


class Create(PTransform):
    def __init__(self, values, reshuffle=True):
        self.values = list(values)


class ParDo(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Reshuffle(PTransform):
    pass


def Map(fn, *args, **kwargs):
    return ParDo(_CallableDoFn(fn, False), *args, **kwargs)


def FlatMap(fn, *args, **kwargs):
    return ParDo(_CallableDoFn(fn, True), *args, **kwargs)


def Filter(fn, *args, **kwargs):
    return ParDo(_FilterDoFn(fn), *args, **kwargs)


class CombineGlobally(PTransform):
    def __init__(self, fn, *args, **kwargs):
        self.fn = fn if isinstance(fn, CombineFn) else _CallableCombineFn(fn)
        self.args, self.kwargs = args, kwargs
        self.defaults = True

    def without_defaults(self):
        self.defaults = False
        return self

    def with_defaults(self, has_defaults=True):
        self.defaults = has_defaults
        return self


class PCollection:
    def __init__(self, pipeline, producer, source):
        self.pipeline, self.producer, self.source = pipeline, producer, source

    def _apply(self, transform):
        return self.pipeline._add(transform, self)

    def __or__(self, transform):
        return self._apply(transform)


class PipelineResult:
    def __init__(self, error=None):
        self.state = "FAILED" if error else "DONE"
        self._error = error

    def wait_until_finish(self, duration=None):
        if self._error:
            raise self._error
        return self.state


class Pipeline:
    def __init__(self, runner=None, options=None, argv=None, **kwargs):
        self.options = options if options is not None else PipelineOptions(argv or [])
        self.nodes = []

    def _add(self, transform, source):
        out = PCollection(self, transform, source)
        self.nodes.append(out)
        return out

    def _apply(self, transform):
        return self._add(transform, None)

    def __or__(self, transform):
        return self._apply(transform)

    def run(self):
        (runner or run_locally)(self)
        return PipelineResult()

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc_value, tb):
        if exc_type is None:
            self.run().wait_until_finish()
        return False


def roundtrip(x):
    return dill.loads(dill.dumps(x))


def run_dofn(fn, args, kwargs, elements):
    """Runs one bundle through one DoFn instance."""
    out = []
    fn.start_bundle()
    for e in elements:
        r = fn.process(e, *args, **kwargs)
        if r is not None:
            out.extend(r)
    fn.finish_bundle()
    return out


def run_locally(pipeline):
    values = {}
    for node in pipeline.nodes:
        t = node.producer
        src = values.get(id(node.source), [])
        if isinstance(t, Create):
            out = [roundtrip(v) for v in t.values]
        elif isinstance(t, ParDo):
            fn, args, kwargs = roundtrip((t.fn, t.args, t.kwargs))
            fn.setup()
            out = run_dofn(fn, args, kwargs, [roundtrip(e) for e in src])
            fn.teardown()
        elif isinstance(t, CombineGlobally):
            fn = roundtrip(t.fn)
            accs = []
            for e in src:
                accs.append(fn.add_input(fn.create_accumulator(), roundtrip(e)))
            acc = fn.merge_accumulators(accs or [fn.create_accumulator()])
            out = [fn.extract_output(fn.compact(acc))]
        elif hasattr(t, "run_on"):
            t.run_on(src)
            out = src
        else:
            out = list(src)
        values[id(node)] = out


from . import pvalue, transforms  # noqa: E402,F401
