"""Stub set generators with the documented semantics."""
from .set_generator_base import SetGeneratorBase

ORDER_ORIGINAL = "original"
ORDER_REVERSED = "reversed"
ORDER_RANDOM = "random"
CORRELATED_SETS_ALL = "all"
CORRELATED_SETS_ONE = "one"


class IndependentSetGenerator(SetGeneratorBase):
    def __init__(self, universe_size, set_sizes, random_state):
        self.universe_size = int(universe_size)
        self.set_sizes = set_sizes
        self.random_state = random_state

    def __iter__(self):
        for n in self.set_sizes:
            yield self.random_state.choice(self.universe_size, int(n), replace=False)


class SequentiallyCorrelatedSetGenerator(SetGeneratorBase):
    def __init__(self, order, correlated_sets, shared_prop, set_sizes, random_state):
        self.order = order
        self.correlated_sets = correlated_sets
        self.shared_prop = shared_prop
        self.set_sizes = set_sizes
        self.random_state = random_state

    def __iter__(self):
        rs = self.random_state
        order = list(range(len(self.set_sizes)))
        if self.order == ORDER_RANDOM:
            order = [int(i) for i in rs.permutation(len(order))]
        elif self.order == ORDER_REVERSED:
            order = order[::-1]
        out, pool, last, fresh = {}, [], [], 0
        for i in order:
            n = int(self.set_sizes[i])
            source = pool if self.correlated_sets == CORRELATED_SETS_ALL else last
            k = min(int(n * self.shared_prop), len(source), n)
            shared = [source[int(j)] for j in rs.choice(len(source), k, replace=False)] if k else []
            ids = shared + list(range(fresh, fresh + n - k))
            fresh += n - k
            pool.extend(ids[k:])
            last = ids
            out[i] = ids
        for i in range(len(self.set_sizes)):
            yield out[i]


class DisjointSetGenerator(SetGeneratorBase):
    def __init__(self, set_sizes):
        self.set_sizes = set_sizes

    def __iter__(self):
        start = 0
        for n in self.set_sizes:
            yield list(range(start, start + int(n)))
            start += int(n)
