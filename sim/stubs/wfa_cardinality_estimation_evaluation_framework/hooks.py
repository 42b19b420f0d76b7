"""Observation points of the stub: called for every noise draw and every estimate.

The simulator installs functions here; they are the independent account of the
noise that was really released (oracle of C07) and of the measurements that were
really requested (oracle of C03).
"""
on_noise = None  # f(kind, epsilon, delta, source)
on_measure = None  # f(phase): "begin" / "end" of one noisy measurement
on_draw = None  # f(drawn, x): the noise to use instead of the one drawn for x
on_call = None  # f(name): may raise, to inject a failure inside a measurement


def noise(kind, epsilon, delta=0.0, source=None):
    if on_noise is not None:
        on_noise(kind, float(epsilon), float(delta), source)


def measure(phase):
    if on_measure is not None:
        on_measure(phase)


def call(name):
    if on_call is not None:
        on_call(name)


def draw(value, x=None):
    return value if on_draw is None else on_draw(value, x)
