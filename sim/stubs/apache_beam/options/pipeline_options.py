"""Stub of PipelineOptions: --key=value flags, defaults for what the driver reads."""

_DEFAULTS = {
    "runner": None,
    "temp_location": None,
    "staging_location": None,
    "direct_num_workers": 1,
    "direct_running_mode": "in_memory",
    "project": None,
    "region": None,
}


class PipelineOptions:
    def __init__(self, flags=None, **kwargs):
        self._options = {}
        for f in flags or []:
            if f.startswith("--"):
                key, sep, value = f[2:].partition("=")
                self._options[key] = value if sep else True
        self._options.update(kwargs)
        if "direct_num_workers" in self._options:
            self._options["direct_num_workers"] = int(
                self._options["direct_num_workers"]
            )

    def get_all_options(self, drop_default=False, **kwargs):
        # Beam leaves options that were never given out of the way of .get(..., default)
        # only for keys it does not know; known keys are present with their default.
        out = {} if drop_default else dict(_DEFAULTS)
        out.update(self._options)
        return out

    def view_as(self, cls):
        return self

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self.get_all_options().get(name)
