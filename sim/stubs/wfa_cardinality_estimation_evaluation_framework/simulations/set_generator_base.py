"""Stub."""


class SetGeneratorBase:
    def __iter__(self):
        raise NotImplementedError()
