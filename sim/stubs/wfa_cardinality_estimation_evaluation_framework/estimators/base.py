"""Stub of the estimator base classes (interface used by this repository only)."""


class EstimateNoiserBase:
    def __call__(self, cardinality_estimate):
        raise NotImplementedError()


class SketchBase:
    def add_ids(self, ids):
        for i in ids:
            self.add(i)


class EstimatorBase:
    def __call__(self, sketch_list):
        raise NotImplementedError()
