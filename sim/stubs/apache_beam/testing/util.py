from apache_beam import PTransform


class _Check(PTransform):
    def __init__(self, matcher):
        self._matcher = matcher

    def run_on(self, values):
        self._matcher(values)


def assert_that(actual, matcher, label="assert_that", **kwargs):
    actual | label >> _Check(matcher)


def equal_to(expected):
    def match(values):
        left = list(expected)
        for v in values:
            left.remove(v)
        assert not left, left

    return match
