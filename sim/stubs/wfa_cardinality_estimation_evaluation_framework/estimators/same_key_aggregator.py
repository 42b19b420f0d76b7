"""Stub of the same-key-aggregator sketch and of its histogram estimator.

A sketch maps register -> [key or None after a collision, count].  Two sketches made
with the same parameters can be merged.  The estimate is a function of the registers
only, so it depends on ids, counts and on every sketch parameter.
"""
import math

from .. import hooks
from .base import EstimatorBase, SketchBase
from .estimator_noisers import GeometricEstimateNoiser

_MASK = (1 << 64) - 1


def _mix(x):
    x = (x + 0x9E3779B97F4A7C15) & _MASK
    x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & _MASK
    x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & _MASK
    return x ^ (x >> 31)


class ExponentialSameKeyAggregator(SketchBase):
    def __init__(self, length, decay_rate, random_seed):
        self.length = int(length)
        self.decay_rate = decay_rate
        self.random_seed = random_seed
        self.registers = {}

    @classmethod
    def get_sketch_factory(cls, length, decay_rate):
        def f(random_seed):
            return cls(length, decay_rate, random_seed)

        return f

    def _register(self, x):
        u = _mix(_mix(int(x)) ^ _mix(int(self.random_seed))) / float(1 << 64)
        a = float(self.decay_rate)
        y = -math.log(1 - u * (1 - math.exp(-a))) / a
        return min(int(y * self.length), self.length - 1)

    def add(self, x):
        r = self._register(x)
        cell = self.registers.get(r)
        if cell is None:
            self.registers[r] = [x, 1]
        elif cell[0] == x:
            cell[1] += 1
        else:
            cell[0] = None
            cell[1] += 1

    def add_ids(self, ids):
        for x in ids:
            self.add(x)


class StandardizedHistogramEstimator(EstimatorBase):
    def __init__(
        self,
        max_freq=10,
        reach_noiser_class=GeometricEstimateNoiser,
        frequency_noiser_class=GeometricEstimateNoiser,
        reach_epsilon=None,
        frequency_epsilon=None,
        reach_delta=None,
        frequency_delta=None,
        reach_noiser_kwargs=None,
        frequency_noiser_kwargs=None,
    ):
        self.max_freq = max_freq
        self._reach = (reach_noiser_class, reach_epsilon, reach_delta)
        self._freq = (frequency_noiser_class, frequency_epsilon, frequency_delta)
        self._reach_noiser = self._freq_noiser = lambda x: x
        if reach_epsilon is not None:
            self._reach_noiser = reach_noiser_class(
                epsilon=reach_epsilon, **(reach_noiser_kwargs or {})
            )
        if frequency_epsilon is not None:
            self._freq_noiser = frequency_noiser_class(
                epsilon=frequency_epsilon, **(frequency_noiser_kwargs or {})
            )

    @classmethod
    def merge_two_sketches(cls, this, that):
        if (this.length, this.decay_rate, this.random_seed) != (
            that.length,
            that.decay_rate,
            that.random_seed,
        ):
            raise AssertionError("sketches are not compatible")
        out = ExponentialSameKeyAggregator(
            this.length, this.decay_rate, this.random_seed
        )
        out.registers = {r: list(c) for r, c in this.registers.items()}
        for r, (key, count) in that.registers.items():
            cell = out.registers.get(r)
            if cell is None:
                out.registers[r] = [key, count]
            else:
                if cell[0] != key:
                    cell[0] = None
                cell[1] += count
        return out

    def estimate_cardinality(self, sketch):
        hooks.measure("begin")
        hooks.call("estimate")
        active = [c for c in sketch.registers.values() if c[0] is not None]
        n = len(sketch.registers) + (len(sketch.registers) - len(active))
        hist = [0.0] * self.max_freq
        for _, count in active:
            hist[min(count, self.max_freq) - 1] += 1
        reach = float(self._reach_noiser(n))
        hooks.noise("delta", 0.0, self._reach[2] or 0.0)
        # the noisy histogram is used as it is, so counts may be negative and the
        # reaches may increase with the frequency
        noised = [float(h) for h in self._freq_noiser(hist)]
        hooks.noise("delta", 0.0, self._freq[2] or 0.0)
        total = sum(noised)
        if total <= 0:
            kplus = [reach] + [0.0] * (self.max_freq - 1)
        else:
            kplus, acc = [], total
            for h in noised:
                kplus.append(reach * acc / total)
                acc -= h
        hooks.call("estimated")
        hooks.measure("end")
        return kplus

    def __call__(self, sketch_list):
        s = sketch_list[0]
        for t in sketch_list[1:]:
            s = self.merge_two_sketches(s, t)
        return self.estimate_cardinality(s)

    def output_privacy_parameters(self):
        return [self._reach, self._freq]
