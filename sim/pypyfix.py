"""PyPy 7.3 aborts when pandas' C TextReader is finalised.

Every reader is kept alive, and input on which its constructor would fail (which leaves
nothing to keep alive) is refused before the C code sees it, with the same exception.
"""
import io

import pandas._libs.parsers as _p
from pandas.errors import EmptyDataError, ParserError

_alive = []


def install():
    orig = _p.TextReader
    if getattr(orig, "_sim_keepalive", False):
        return

    def TextReader(src, *args, **kwargs):
        data = src.read() if hasattr(src, "read") else None
        if isinstance(data, bytes):
            data = data.decode("utf-8")
        if data is not None:
            if not data.strip():
                raise EmptyDataError("No columns to parse from file")
            if data.count('"') % 2:
                raise ParserError("Error tokenizing data. C error: EOF inside string")
            src = io.StringIO(data, newline="")
        r = orig(src, *args, **kwargs)
        _alive.append(r)
        return r

    TextReader._sim_keepalive = True
    _p.TextReader = TextReader
