"""Stub: only the name is used by this repository."""
from .base import SketchBase


class VectorOfCounts(SketchBase):
    pass
