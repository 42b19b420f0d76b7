"""Stub noise mechanisms."""


class LaplaceMechanism:
    def __init__(self, f, delta_f, epsilon, random_state=None):
        self._f, self._scale, self._rs = f, delta_f / epsilon, random_state

    def __call__(self, x):
        return self._f(x) + self._rs.laplace(0, self._scale)
