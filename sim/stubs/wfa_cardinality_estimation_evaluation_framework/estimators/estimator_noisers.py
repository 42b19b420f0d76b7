"""Stub of the two-sided geometric noiser."""
import math

import numpy as np

from .. import hooks
from .base import EstimateNoiserBase


class GeometricEstimateNoiser(EstimateNoiserBase):
    def __init__(self, epsilon, random_state=None):
        self._epsilon = epsilon
        self._random_state = random_state or np.random.RandomState()

    def _draw(self, x):
        # Cap epsilon: numpy's geometric needs p < 1.
        p = 1 - math.exp(-min(max(self._epsilon, 1e-12), 30.0))
        rs = self._random_state
        return hooks.draw(int(rs.geometric(p)) - int(rs.geometric(p)), x)

    def __call__(self, cardinality_estimate):
        hooks.call("noiser")
        hooks.noise("geometric", self._epsilon, source=self)
        if np.ndim(cardinality_estimate) == 0:
            return cardinality_estimate + self._draw(cardinality_estimate)
        return np.array([x + self._draw(x) for x in cardinality_estimate])
